//! Compiled against the library, never run: `ok_*` must compile; each `bad_*`, which differs from its `ok_*`
//! only in when something is dropped or how long it is said to live, must be refused by the borrow checker.
#![allow(dead_code, unused_variables)]
use beancount_parser_lima::*;

fn sources() -> BeancountSources {
    BeancountSources::from("")
}
fn touch<T>(_: &T) {}

// ---- the parser borrows the sources
#[cfg(w = "ok_parser")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    touch(&p);
    drop(s);
}
#[cfg(w = "bad_parser")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    drop(s);
    touch(&p);
}
#[cfg(w = "ok_parser_long")]
fn f<'a>(s: &'a BeancountSources) -> BeancountParser<'a> {
    BeancountParser::new(s)
}
#[cfg(w = "bad_parser_long")]
fn f<'a>(s: &'a BeancountSources) -> BeancountParser<'static> {
    BeancountParser::new(s)
}

// ---- the whole result borrows the sources and the parser
#[cfg(w = "ok_result_sources")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    let r = p.parse();
    touch(&r);
    drop(s);
}
#[cfg(w = "bad_result_sources")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    let r = p.parse();
    drop(s);
    touch(&r);
}
#[cfg(w = "ok_result_parser")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    let r = p.parse();
    touch(&r);
    drop(p);
}
#[cfg(w = "bad_result_parser")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    let r = p.parse();
    drop(p);
    touch(&r);
}

// ---- so do its parts
#[cfg(w = "ok_directives")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    let d = p.parse().map(|r| r.directives).unwrap_or_default();
    touch(&d);
    drop(p);
    drop(s);
}
#[cfg(w = "bad_directives")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    let d = p.parse().map(|r| r.directives).unwrap_or_default();
    drop(p);
    drop(s);
    touch(&d);
}
#[cfg(w = "ok_options")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    let d = p.parse().ok().map(|r| r.options);
    touch(&d);
    drop(p);
    drop(s);
}
#[cfg(w = "bad_options")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    let d = p.parse().ok().map(|r| r.options);
    drop(p);
    drop(s);
    touch(&d);
}
#[cfg(w = "ok_plugins")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    let d = p.parse().map(|r| r.plugins).unwrap_or_default();
    touch(&d);
    drop(p);
    drop(s);
}
#[cfg(w = "bad_plugins")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    let d = p.parse().map(|r| r.plugins).unwrap_or_default();
    drop(p);
    drop(s);
    touch(&d);
}

// ---- and the texts taken from them
macro_rules! long {
    ($ok:literal, $bad:literal, $t:ident, $x:ident, $e:expr, $o:ty, $s:ty) => {
        #[cfg(w = $ok)]
        fn f<'a>($x: &'a $t<'a>) -> $o {
            $e
        }
        #[cfg(w = $bad)]
        fn f<'a>($x: &'a $t<'a>) -> $s {
            $e
        }
    };
}
long!("ok_payee", "bad_payee", Transaction, x, x.payee().map(|y| *y.item()), Option<&'a str>, Option<&'static str>);
long!("ok_narration", "bad_narration", Transaction, x, x.narration().map(|y| *y.item()), Option<&'a str>, Option<&'static str>);
long!("ok_note", "bad_note", Note, x, x.comment().item(), &'a str, &'static str);
long!("ok_document", "bad_document", Document, x, x.path().item(), &'a str, &'static str);
long!("ok_event", "bad_event", Event, x, x.description().item(), &'a str, &'static str);
long!("ok_query", "bad_query", Query, x, x.content().item(), &'a str, &'static str);
long!("ok_custom", "bad_custom", Custom, x, x.type_().item(), &'a str, &'static str);
long!("ok_plugin", "bad_plugin", Plugin, x, x.module_name().item(), &'a str, &'static str);
long!("ok_key", "bad_key", Key, x, AsRef::<str>::as_ref(x), &'a str, &'static str);
long!("ok_tag", "bad_tag", Tag, x, AsRef::<str>::as_ref(x), &'a str, &'static str);
long!("ok_link", "bad_link", Link, x, AsRef::<str>::as_ref(x), &'a str, &'static str);
long!("ok_currency", "bad_currency", Currency, x, AsRef::<str>::as_ref(x), &'a str, &'static str);

macro_rules! whole {
    ($ok:literal, $bad:literal, $t:ident) => {
        #[cfg(w = $ok)]
        fn f<'a>(x: $t<'a>) -> $t<'a> {
            x
        }
        #[cfg(w = $bad)]
        fn f<'a>(x: $t<'a>) -> $t<'static> {
            x
        }
    };
}
whole!("ok_of_success", "bad_of_success", ParseSuccess);
whole!("ok_of_directive", "bad_of_directive", Directive);
whole!("ok_of_posting", "bad_of_posting", Posting);
whole!("ok_of_account", "bad_of_account", Account);
whole!("ok_of_metadata", "bad_of_metadata", Metadata);
whole!("ok_of_options", "bad_of_options", Options);
whole!("ok_of_plugin", "bad_of_plugin", Plugin);

// ---- a shorter borrow will do
#[cfg(w = "ok_shorter")]
fn f<'a, 'b: 'a>(x: ParseSuccess<'b>) -> ParseSuccess<'a> {
    x
}

// ---- results owe nothing to what was borrowed to report them
#[cfg(w = "ok_errors")]
fn f() -> (Vec<Error>, Vec<Warning>) {
    let s = sources();
    let p = BeancountParser::new(&s);
    let r = match p.parse() {
        Ok(ParseSuccess { warnings, .. }) => (Vec::new(), warnings),
        Err(ParseError { errors, warnings }) => (errors, warnings),
    };
    r
}

// ---- threads
#[cfg(w = "ok_threads")]
fn both<T: Send + Sync>() {}
#[cfg(w = "ok_threads")]
fn f<'a>() {
    both::<ParseSuccess<'a>>();
    both::<ParseError>();
    both::<Spanned<Directive<'a>>>();
    both::<Options<'a>>();
    both::<Plugin<'a>>();
    both::<Error>();
    both::<Warning>();
}
#[cfg(w = "ok_threads_share")]
fn f() {
    let s = sources();
    let p = BeancountParser::new(&s);
    if let Ok(r) = p.parse() {
        let r = &r;
        std::thread::scope(|t| {
            t.spawn(move || r.directives.len());
            t.spawn(move || r.plugins.len());
        });
    }
}
