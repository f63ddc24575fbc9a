//! Table of every action and test of the language with a hole (`§`) in each place that takes a string,
//! and the extensions it needs. Shared by the checks that quantify over "anywhere a string is allowed"
//! or "any command, test or argument".

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Act,
    Test,
}
use Kind::*;
#[derive(Clone, Debug)]
pub struct Tpl {
    pub kind: Kind,
    pub text: &'static str,
    pub caps: &'static [&'static str],
}
const fn t(kind: Kind, text: &'static str, caps: &'static [&'static str]) -> Tpl {
    Tpl { kind, text, caps }
}
pub const TPLS: &[Tpl] = &[
    // dispositions
    t(Act, "fileinto \"§\";", &["fileinto"]),
    t(Act, "fileinto :copy \"§\";", &["fileinto", "copy"]),
    t(Act, "fileinto :create \"§\";", &["fileinto", "mailbox"]),
    t(Act, "fileinto :mailboxid \"§\" \"m\";", &["fileinto", "mailboxid"]),
    t(Act, "fileinto :specialuse \"§\" \"m\";", &["fileinto", "special-use"]),
    t(Act, "fileinto :flags \"§\" \"m\";", &["fileinto", "imap4flags"]),
    t(Act, "fileinto :flags [\"a\", \"§\"] \"m\";", &["fileinto", "imap4flags"]),
    t(Act, "keep :flags \"§\";", &["imap4flags"]),
    t(Act, "keep :flags [\"§\", \"b\"];", &["imap4flags"]),
    t(Act, "redirect \"§\";", &[]),
    t(Act, "redirect :copy \"§\";", &["copy"]),
    t(Act, "redirect :notify \"§\" \"a@b.example\";", &["redirect-dsn"]),
    t(Act, "redirect :ret \"FULL\" \"a@b.example\";", &["redirect-dsn"]),
    t(Act, "redirect :bytimerelative 600 :bymode \"return\" \"a@b.example\";", &["redirect-deliverby"]),
    t(Act, "redirect :bytimeabsolute \"§\" \"a@b.example\";", &["redirect-deliverby"]),
    t(Act, "redirect :bytimeabsolute \"2030-01-01T00:00:00Z\" :bymode \"notify\" :bytrace \"a@b.example\";", &["redirect-deliverby"]),
    t(Act, "redirect :list \"§\";", &["extlists"]),
    t(Act, "reject \"§\";", &["reject"]),
    t(Act, "ereject \"§\";", &["ereject"]),
    t(Act, "discard;", &[]),
    t(Act, "error \"§\";", &["ihave"]),
    // header edits
    t(Act, "addheader \"§\" \"v\";", &["editheader"]),
    t(Act, "addheader \"X-A\" \"§\";", &["editheader"]),
    t(Act, "addheader :last \"X-A\" \"§\";", &["editheader"]),
    t(Act, "deleteheader \"§\";", &["editheader"]),
    t(Act, "deleteheader \"Subject\" \"§\";", &["editheader"]),
    t(Act, "deleteheader :contains \"Subject\" \"§\";", &["editheader"]),
    t(Act, "deleteheader :matches \"Subject\" \"§\";", &["editheader"]),
    t(Act, "deleteheader :regex \"Subject\" \"§\";", &["editheader", "regex"]),
    t(Act, "deleteheader :index 1 :last \"Received\" [\"§\"];", &["editheader", "index"]),
    t(Act, "deleteheader :comparator \"i;octet\" :is \"Subject\" \"§\";", &["editheader"]),
    t(Act, "deleteheader :value \"ge\" :comparator \"i;ascii-numeric\" \"X-Num\" \"§\";", &["editheader", "relational"]),
    t(Act, "deleteheader :count \"ge\" :comparator \"i;ascii-numeric\" \"Received\" \"§\";", &["editheader", "relational"]),
    // variables
    t(Act, "set \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags"]),
    t(Act, "set :lower \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags"]),
    t(Act, "set :upper \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags"]),
    t(Act, "set :upperfirst :lower \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags"]),
    t(Act, "set :lowerfirst \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags"]),
    t(Act, "set :quotewildcard \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags"]),
    t(Act, "set :quoteregex \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags", "regex"]),
    t(Act, "set :encodeurl \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags", "enotify"]),
    t(Act, "set :length \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags"]),
    t(Act, "set :replace \"§\" \"x\" \"w\" \"aHello World5joe§\"; keep :flags \"${w}\";", &["variables", "imap4flags"]),
    t(Act, "set :replace \"l\" \"§\" \"w\" \"Hello\"; keep :flags \"${w}\";", &["variables", "imap4flags"]),
    t(Act, "set :local \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags", "include"]),
    t(Act, "set \"global.w\" \"§\"; keep :flags \"${global.w}\";", &["variables", "imap4flags", "include"]),
    t(Act, "global \"w\"; set \"w\" \"§\"; keep :flags \"${w}\";", &["variables", "imap4flags", "include"]),
    t(Act, "set \"envelope.from\" \"§\";", &["variables", "envelope"]),
    t(Act, "let \"w\" \"'§' + 'x'\"; keep :flags \"${w}\";", &["variables", "imap4flags", "vnd.stalwart.expressions"]),
    // flags
    t(Act, "setflag \"§\";", &["imap4flags"]),
    t(Act, "addflag [\"a\", \"§\"];", &["imap4flags"]),
    t(Act, "setflag [\"a\", \"b\", \"subject\", \"5\"]; removeflag \"§\";", &["imap4flags"]),
    t(Act, "setflag \"w\" \"§\"; keep :flags \"${w}\";", &["imap4flags", "variables"]),
    // include
    t(Act, "include \"§\";", &["include"]),
    t(Act, "include :global :once :optional \"§\";", &["include"]),
    // notifications and replies
    t(Act, "notify \"§\";", &["enotify"]),
    t(Act, "notify :message \"§\" \"mailto:a@b.example\";", &["enotify"]),
    t(Act, "notify :from \"§\" \"mailto:a@b.example\";", &["enotify"]),
    t(Act, "notify :importance \"§\" \"mailto:a@b.example\";", &["enotify"]),
    t(Act, "notify :options [\"x=y\", \"§\"] \"xmpp:a@b.example\";", &["enotify"]),
    t(Act, "notify :message \"§\" :importance \"1\" \"xmpp:a@b.example\";", &["enotify"]),
    t(Act, "notify :from \"§\" \"xmpp:a@b.example\";", &["enotify"]),
    t(Act, "notify :fcc \"§\" \"mailto:a@b.example\";", &["enotify", "fcc"]),
    t(Act, "notify :fcc \"f\" :create :flags [\"§\"] \"mailto:a@b.example\";", &["enotify", "fcc", "mailbox", "imap4flags"]),
    t(Act, "notify :fcc \"f\" :mailboxid \"§\" \"mailto:a@b.example\";", &["enotify", "fcc", "mailboxid"]),
    t(Act, "notify :fcc \"f\" :specialuse \"§\" \"mailto:a@b.example\";", &["enotify", "fcc", "special-use"]),
    t(Act, "vacation \"§\";", &["vacation"]),
    t(Act, "vacation :days 3 \"§\";", &["vacation"]),
    t(Act, "vacation :seconds 90 \"§\";", &["vacation", "vacation-seconds"]),
    t(Act, "vacation :subject \"§\" \"gone\";", &["vacation"]),
    t(Act, "vacation :from \"§\" \"gone\";", &["vacation"]),
    t(Act, "vacation :handle \"§\" \"gone\";", &["vacation"]),
    t(Act, "vacation :addresses [\"x@y.example\", \"§\"] \"gone\";", &["vacation"]),
    t(Act, "vacation :mime \"Content-Type: text/plain\\r\\n\\r\\n§\";", &["vacation"]),
    t(Act, "vacation :fcc \"§\" \"gone\";", &["vacation", "fcc"]),
    t(Act, "vacation :fcc \"f\" :create :flags \"§\" \"gone\";", &["vacation", "fcc", "mailbox", "imap4flags"]),
    t(Act, "vacation :fcc \"f\" :mailboxid \"§\" \"gone\";", &["vacation", "fcc", "mailboxid"]),
    t(Act, "vacation :fcc \"f\" :specialuse \"§\" \"gone\";", &["vacation", "fcc", "special-use"]),
    // bodies
    t(Act, "replace \"§\";", &["replace"]),
    t(Act, "replace :subject \"§\" \"b\";", &["replace"]),
    t(Act, "replace :from \"§\" \"b\";", &["replace"]),
    t(Act, "replace :mime \"Content-Type: text/plain\\r\\n\\r\\n§\";", &["replace", "mime"]),
    t(Act, "foreverypart { if header :mime :is \"x-part\" \"one\" { replace \"§\"; } }", &["foreverypart", "mime", "replace"]),
    t(Act, "foreverypart :name \"l\" { foreverypart { break :name \"l\"; } replace \"§\"; break; }", &["foreverypart", "mime", "replace"]),
    t(Act, "enclose \"§\";", &["enclose"]),
    t(Act, "enclose :subject \"§\" \"b\";", &["enclose"]),
    t(Act, "enclose :headers [\"From: a@b.example\", \"X-A: §\"] \"b\";", &["enclose"]),
    t(Act, "foreverypart { extracttext :first 10 :upper \"w\"; addheader :last \"X-A\" \"${w}§\"; }", &["foreverypart", "mime", "extracttext", "variables", "editheader"]),
    t(Act, "convert \"text/plain\" \"§\" [\"p=1\"];", &["convert"]),
    t(Act, "convert \"§\" \"text/html\" [\"p=1\"];", &["convert"]),
    t(Act, "convert \"text/plain\" \"text/html\" [\"§\"];", &["convert"]),
    t(Test, "convert \"text/plain\" \"text/html\" [\"§\"]", &["convert"]),
    // tests on the message
    t(Test, "header \"§\" \"Hello World\"", &[]),
    t(Test, "header :is \"Subject\" \"§\"", &[]),
    t(Test, "header :contains [\"Subject\", \"§\"] [\"§\", \"zzz\"]", &[]),
    t(Test, "header :matches \"Subject\" \"§\"", &[]),
    t(Test, "header :comparator \"i;octet\" :matches \"Subject\" \"§\"", &[]),
    t(Test, "header :regex \"Subject\" \"§\"", &["regex"]),
    t(Test, "header :value \"ge\" :comparator \"i;ascii-numeric\" \"X-Num\" \"§\"", &["relational"]),
    t(Test, "header :count \"ge\" :comparator \"i;ascii-numeric\" \"Received\" \"§\"", &["relational"]),
    t(Test, "header :index 1 :last \"Received\" \"§\"", &["index"]),
    t(Test, "header :list \"Subject\" \"§\"", &["extlists"]),
    t(Test, "header :mime :anychild \"X-Part\" \"§\"", &["mime"]),
    t(Test, "header :mime :anychild :contenttype \"§\" \"text/html\"", &["mime"]),
    t(Test, "header :mime :anychild :contenttype \"Content-Type\" \"§\"", &["mime"]),
    t(Test, "header :mime :type \"Content-Type\" \"§\"", &["mime"]),
    t(Test, "header :mime :subtype \"Content-Type\" \"§\"", &["mime"]),
    t(Test, "header :mime :param \"§\" \"Content-Type\" \"xx\"", &["mime"]),
    t(Test, "address \"From\" \"§\"", &[]),
    t(Test, "address :all :is \"§\" \"joe+tag@example.org\"", &[]),
    t(Test, "address :localpart :matches \"From\" \"§\"", &[]),
    t(Test, "address :domain \"From\" \"§\"", &[]),
    t(Test, "address :user \"From\" \"§\"", &["subaddress"]),
    t(Test, "address :detail \"From\" \"§\"", &["subaddress"]),
    t(Test, "address :index 2 \"From\" \"§\"", &["index"]),
    t(Test, "address :mime :anychild \"X-Part\" \"§\"", &["mime"]),
    t(Test, "address :list \"From\" \"§\"", &["extlists"]),
    t(Test, "address :value \"gt\" \"From\" \"§\"", &["relational"]),
    t(Test, "address :regex \"From\" \"§\"", &["regex"]),
    t(Test, "envelope \"from\" \"§\"", &["envelope"]),
    t(Test, "envelope :domain :contains \"to\" \"§\"", &["envelope"]),
    t(Test, "envelope :user \"to\" \"§\"", &["envelope", "subaddress"]),
    t(Test, "envelope :list \"from\" \"§\"", &["envelope", "extlists"]),
    t(Test, "envelope :value \"gt\" \"from\" \"§\"", &["envelope", "relational"]),
    t(Test, "envelope :regex \"from\" \"§\"", &["envelope", "regex"]),
    t(Test, "envelope \"notify\" \"§\"", &["envelope", "envelope-dsn"]),
    t(Test, "envelope \"bytimeabsolute\" \"§\"", &["envelope", "envelope-deliverby"]),
    t(Test, "exists [\"Subject\", \"§\"]", &[]),
    t(Test, "exists :mime :anychild \"§\"", &["mime"]),
    t(Test, "size :over 10", &[]),
    t(Test, "body \"§\"", &["body"]),
    t(Test, "body :raw :contains \"§\"", &["body"]),
    t(Test, "body :text :contains \"§\"", &["body"]),
    t(Test, "body :content \"§\" :contains \"first\"", &["body"]),
    t(Test, "body :content \"text\" :contains \"§\"", &["body"]),
    t(Test, "body :content [\"image\", \"§\"] :matches \"*f*\"", &["body"]),
    t(Test, "body :subject :contains \"§\"", &["body"]),
    t(Test, "body :regex \"§\"", &["body", "regex"]),
    t(Test, "body :count \"ge\" \"§\"", &["body", "relational"]),
    t(Test, "date \"§\" \"year\" \"2014\"", &["date"]),
    t(Test, "date \"Date\" \"year\" \"§\"", &["date"]),
    t(Test, "date :zone \"-0700\" \"Date\" \"hour\" \"§\"", &["date"]),
    t(Test, "date :index 1 :last \"Date\" \"date\" \"§\"", &["date", "index"]),
    t(Test, "date :originalzone :value \"ge\" \"Date\" \"day\" \"§\"", &["date", "relational"]),
    t(Test, "date :mime :anychild \"Date\" \"month\" \"§\"", &["date", "mime"]),
    t(Test, "currentdate :contains \"zone\" \"§\"", &["date"]),
    t(Test, "currentdate :value \"lt\" \"year\" \"§\"", &["date", "relational"]),
    t(Test, "currentdate :regex \"zone\" \"§\"", &["date", "regex"]),
    // tests on values and the host's world
    t(Test, "string \"§\" \"Subject\"", &["variables"]),
    t(Test, "string :contains \"aSubjectb5joe+tag@Example.org\" [\"zzz\", \"§\"]", &["variables"]),
    t(Test, "string :matches \"Subject\" \"§\"", &["variables"]),
    t(Test, "string :matches \"§\" [\"S*\", \"5\"]", &["variables"]),
    t(Test, "string :regex \"Subject\" \"§\"", &["variables", "regex"]),
    t(Test, "string :regex \"§\" \"^[a-z]+$\"", &["variables", "regex"]),
    t(Test, "string :value \"lt\" \"§\" \"6\"", &["variables", "relational"]),
    t(Test, "string :count \"ge\" [\"a\", \"§\"] \"2\"", &["variables", "relational"]),
    t(Test, "string :list \"§\" \"§\"", &["variables", "extlists"]),
    t(Test, "hasflag \"§\"", &["imap4flags"]),
    t(Test, "hasflag \"w\" \"§\"", &["imap4flags", "variables"]),
    t(Test, "hasflag :contains \"§\"", &["imap4flags"]),
    t(Test, "hasflag :count \"ge\" \"§\"", &["imap4flags", "relational"]),
    t(Test, "mailboxexists [\"§\", \"INBOX\"]", &["mailbox"]),
    t(Test, "mailboxidexists \"§\"", &["mailboxid"]),
    t(Test, "specialuse_exists \"§\"", &["special-use"]),
    t(Test, "specialuse_exists \"§\" \"\\\\Sent\"", &["special-use"]),
    t(Test, "specialuse_exists \"INBOX\" [\"§\"]", &["special-use"]),
    t(Test, "metadata \"INBOX\" \"/private/x\" \"§\"", &["mboxmetadata"]),
    t(Test, "metadata \"INBOX\" \"§\" \"yes\"", &["mboxmetadata"]),
    t(Test, "metadata :value \"gt\" \"INBOX\" \"/private/x\" \"§\"", &["mboxmetadata", "relational"]),
    t(Test, "metadataexists \"§\" \"/private/x\"", &["mboxmetadata"]),
    t(Test, "metadataexists \"INBOX\" [\"§\"]", &["mboxmetadata"]),
    t(Test, "servermetadata \"/srv\" \"§\"", &["servermetadata"]),
    t(Test, "servermetadata \"§\" \"on\"", &["servermetadata"]),
    t(Test, "servermetadata :count \"ge\" \"/srv\" \"§\"", &["servermetadata", "relational"]),
    t(Test, "servermetadataexists [\"/srv\", \"§\"]", &["servermetadata"]),
    t(Test, "environment \"host\" \"§\"", &["environment"]),
    t(Test, "environment :count \"ge\" \"host\" \"§\"", &["environment", "relational"]),
    t(Test, "spamtest \"§\"", &["spamtest"]),
    t(Test, "spamtest :percent :value \"ge\" :comparator \"i;ascii-numeric\" \"§\"", &["spamtestplus", "relational"]),
    t(Test, "virustest :value \"lt\" :comparator \"i;ascii-numeric\" \"§\"", &["virustest", "relational"]),
    t(Test, "valid_notify_method [\"mailto:a@b.example\", \"§\"]", &["enotify"]),
    t(Test, "notify_method_capability \"§\" \"online\" \"maybe\"", &["enotify"]),
    t(Test, "notify_method_capability \"mailto:a@b.example\" \"§\" \"maybe\"", &["enotify"]),
    t(Test, "notify_method_capability \"mailto:a@b.example\" \"online\" \"§\"", &["enotify"]),
    t(Test, "valid_ext_list [\"§\"]", &["extlists"]),
    t(Test, "duplicate", &["duplicate"]),
    t(Test, "duplicate :handle \"§\"", &["duplicate"]),
    t(Test, "duplicate :handle \"h\" :uniqueid \"§\" :seconds 60 :last", &["duplicate"]),
    t(Test, "duplicate :header \"§\"", &["duplicate"]),
    t(Test, "ihave [\"fileinto\"]", &["ihave"]),
    t(Test, "eval \"'§' == 'Subject'\"", &["vnd.stalwart.expressions"]),
];

pub fn fill(t: &str, v: &str) -> String {
    t.replace('§', v)
}
/// Value as it stands inside a quoted string.
pub fn esc(v: &str) -> String {
    v.replace('\\', "\\\\").replace('"', "\\\"")
}
pub fn require(caps: &[&str]) -> String {
    if caps.is_empty() {
        return String::new();
    }
    format!("require [{}];\n", caps.iter().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(", "))
}
/// Makes a template a complete script body with observable result.
pub fn body(t: &Tpl, v: &str) -> String {
    let f = fill(t.text, v);
    match t.kind {
        Act => f,
        Test => format!("if {f} {{ redirect \"yes@x.example\"; }} else {{ redirect \"no@x.example\"; }}"),
    }
}
