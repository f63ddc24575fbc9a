//! Real tests with a truth value known by construction on a fixed message, envelope and configuration.
use sieve::{runtime::RuntimeError, Context, Envelope, Metadata, Runtime, SpamStatus, VirusStatus};

pub const MSG: &str = "Received: from a by b; Tue, 01 Apr 2014 09:06:31 +0000\r\nReceived: from c by d; Tue, 01 Apr 2014 09:06:30 +0000\r\nFrom: \"Joe Doe\" <joe+tag@Example.org>\r\nTo: one@two.example, three@four.example\r\nSubject: Hello World\r\nX-Num: 17\r\nX-Empty:\r\nDate: Tue, 01 Apr 2014 09:06:31 -0700\r\nMessage-ID: <abc@def>\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=\"xx\"\r\n\r\n--xx\r\nContent-Type: text/plain\r\nX-Part: one\r\n\r\nfirst part text\r\n--xx\r\nContent-Type: text/html\r\nX-Part: two\r\n\r\n<p>second</p>\r\n--xx--\r\n";

/// (script text of the test, its value)
pub const KNOWN: &[(&str, bool)] = &[
    ("header :is \"subject\" \"hello world\"", true),
    ("header :is \"subject\" \"hello\"", false),
    ("header :contains [\"x-none\", \"subject\"] [\"zzz\", \"WORLD\"]", true),
    ("header :matches \"subject\" \"H*W*\"", true),
    ("header :matches \"subject\" \"H?W*\"", false),
    ("header :comparator \"i;octet\" :is \"subject\" \"hello world\"", false),
    ("header :value \"gt\" :comparator \"i;ascii-numeric\" \"x-num\" \"9\"", true),
    ("header :value \"lt\" :comparator \"i;ascii-numeric\" \"x-num\" \"9\"", false),
    ("header :count \"eq\" :comparator \"i;ascii-numeric\" \"received\" \"2\"", true),
    ("header :count \"gt\" :comparator \"i;ascii-numeric\" \"received\" \"2\"", false),
    ("header :is \"x-empty\" \"\"", true),
    ("header :contains \"x-none\" \"\"", false),
    ("header :index 2 :contains \"received\" \"from c\"", true),
    ("header :index 1 :contains \"received\" \"from c\"", false),
    ("header :last :index 1 :contains \"received\" \"from c\"", true),
    ("header :mime :anychild :contains \"x-part\" \"two\"", true),
    ("header :mime :contains \"x-part\" \"two\"", false),
    ("header :mime :anychild :contenttype \"content-type\" \"text/html\"", true),
    ("header :mime :anychild :subtype \"content-type\" \"rtf\"", false),
    ("header :mime :param \"boundary\" \"content-type\" \"xx\"", true),
    ("header :regex \"subject\" \"^Hel+o\"", true),
    ("header :regex \"subject\" \"^World\"", false),
    ("address :is \"from\" \"joe+tag@example.org\"", true),
    ("address :localpart :is \"from\" \"joe+tag\"", true),
    ("address :domain :is \"from\" \"example.com\"", false),
    ("address :user :is \"from\" \"joe\"", true),
    ("address :detail :is \"from\" \"tag\"", true),
    ("address :detail :is \"to\" \"tag\"", false),
    ("address :domain :contains [\"to\", \"cc\"] \"four\"", true),
    ("address :count \"ge\" :comparator \"i;ascii-numeric\" \"to\" \"2\"", true),
    ("exists [\"from\", \"subject\"]", true),
    ("exists [\"from\", \"x-none\"]", false),
    ("exists :mime :anychild \"x-part\"", true),
    ("size :over 10", true),
    ("size :over 1M", false),
    ("size :under 1K", true),
    ("size :under 10", false),
    ("envelope :is \"from\" \"env@from.example\"", true),
    ("envelope :is \"to\" \"env@from.example\"", false),
    ("envelope :domain :contains \"to\" \"to.example\"", true),
    ("date :originalzone \"date\" \"year\" \"2014\"", true),
    ("date :zone \"+0000\" \"date\" \"hour\" \"09\"", false),
    ("date :zone \"+0000\" \"date\" \"hour\" \"16\"", true),
    ("currentdate :value \"ge\" \"year\" \"2020\"", true),
    ("currentdate :is \"year\" \"1999\"", false),
    ("body :contains \"first part\"", true),
    ("body :text :contains \"third part\"", false),
    ("body :raw :contains \"<p>second\"", true),
    ("body :content \"text/html\" :contains \"first part\"", false),
    ("string :is \"a\" \"A\"", true),
    ("string :is \"a\" \"b\"", false),
    ("string :count \"eq\" :comparator \"i;ascii-numeric\" [\"a\", \"b\"] \"2\"", true),
    ("string :value \"le\" \"b\" \"a\"", false),
    ("string :matches [\"abc\", \"xyz\"] [\"q*\", \"x?z\"]", true),
    ("hasflag \"nothere\"", false),
    ("environment :is \"host\" \"mail.example\"", true),
    ("environment :contains \"host\" \"nope\"", false),
    ("metadata :is \"INBOX\" \"/private/x\" \"yes\"", true),
    ("metadata :is \"INBOX\" \"/private/x\" \"no\"", false),
    ("metadataexists \"INBOX\" \"/private/x\"", true),
    ("metadataexists \"INBOX\" [\"/private/x\", \"/private/y\"]", false),
    ("servermetadata :is \"/srv\" \"on\"", true),
    ("servermetadata :is \"/srv\" \"off\"", false),
    ("servermetadataexists \"/srv\"", true),
    ("servermetadataexists \"/srv2\"", false),
    ("spamtest :percent :value \"ge\" :comparator \"i;ascii-numeric\" \"50\"", true),
    ("spamtest :value \"eq\" :comparator \"i;ascii-numeric\" \"1\"", false),
    ("virustest :value \"eq\" :comparator \"i;ascii-numeric\" \"1\"", true),
    ("virustest :value \"gt\" :comparator \"i;ascii-numeric\" \"1\"", false),
    ("ihave [\"fileinto\", \"copy\"]", true),
    ("ihave \"vnd.nonexistent\"", false),
    ("valid_notify_method \"mailto:a@b.example\"", true),
    ("valid_notify_method \"foo:bar\"", false),
    ("notify_method_capability :is \"mailto:a@b.example\" \"online\" \"maybe\"", true),
    ("notify_method_capability :is \"mailto:a@b.example\" \"online\" \"yes\"", false),
    ("valid_ext_list \"tag:list\"", true),
    ("valid_ext_list [\"tag:list\", \"tag:none\"]", false),
    ("eval \"1 + 1 == 2\"", true),
    ("eval \"3 < 2\"", false),
    ("true", true),
    ("false", false),
];

pub fn runtime(rt: Runtime) -> Runtime {
    rt.with_env_variable("host", "mail.example")
        .with_metadata(Metadata::Mailbox { name: "INBOX".to_string(), annotation: "/private/x".to_string() }, "yes")
        .with_metadata(Metadata::Server { annotation: "/srv".to_string() }, "on")
        .with_valid_ext_list("tag:list")
        .with_valid_notification_uri("mailto")
}
pub fn prep(ctx: &mut Context) {
    ctx.set_envelope(Envelope::From, "env@from.example");
    ctx.set_envelope(Envelope::To, "user@to.example");
    ctx.set_user_address("user@to.example");
    ctx.set_spam_status(SpamStatus::MaybeSpam(0.8));
    ctx.set_virus_status(VirusStatus::Clean);
}
#[allow(unused)]
fn _t(_: RuntimeError) {}
