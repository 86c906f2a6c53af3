//! C31: patterns are read as they are written.
use crate::util::*;

fn gap(r: &mut Rng) -> &'static str { if r.chance(3, 4) { "" } else { *r.pick(&[" ", "\n", "  ", " <!-- c --> ", "\n\n"]) } }
/// White space which is needed between two things.
fn space(r: &mut Rng) -> &'static str { *r.pick(&[" ", " ", "\n", "  ", "\n <!-- c --> "]) }

#[derive(Clone, Copy, PartialEq)]
enum Spread { No, Star, DoubleStar, Dots }

#[derive(Clone)]
enum Q {
    /// Text of the pattern, and whether it may match HTML content.
    Leaf(&'static str, bool),
    /// A pattern which is never legal.
    Bad(&'static str, &'static str),
    Typed(Box<Q>, &'static str),
    And(Vec<Q>), Or(Vec<Q>),
    List(Vec<(Spread, Q)>), Seq(Vec<(Spread, Q)>),
    Dict(Vec<(Spread, String, Q)>),
    Tag(&'static str, Vec<(Spread, String, Option<Q>)>, Option<Box<Q>>, &'static str),
}
use Q::*;

const BARE: &str = "bare name not allowed in match pattern";
const ATTR: &str = "not attribute access";
const INDEX: &str = "not indexed access";

struct G<'a> { r: &'a mut Rng, bad: usize }
impl G<'_> {
    fn bad(&mut self) -> bool { let n = self.bad; n > 0 && self.r.chance(1, n) }
    fn gen(&mut self, d: usize) -> Q {
        if d == 0 { return self.leaf(); }
        match self.r.below(12) {
            0..=2 => self.leaf(),
            3 => { let p = self.plain(); let t = self.types(); Typed(Box::new(p), t) },
            4 => And((0..2 + self.r.below(2)).map(|_| self.primary(d - 1)).collect()),
            5 => Or((0..2 + self.r.below(2)).map(|_| self.conj(d - 1)).collect()),
            _ => self.bracket(d),
        }
    }
    /// Without `|` at its outside.
    fn conj(&mut self, d: usize) -> Q { loop { let q = self.gen(d); if !matches!(q, Or(_)) { return q; } } }
    fn primary(&mut self, d: usize) -> Q { loop { let q = self.gen(d); if !matches!(q, Or(_) | And(_)) { return q; } } }
    fn plain(&mut self) -> Q { match self.r.below(3) { 0 => Leaf("_", true), 1 => Leaf("$x", true), _ => if self.bad() { Bad("$x::y", ATTR) } else { Leaf("$y", true) } } }
    fn types(&mut self) -> &'static str { *self.r.pick(&["int", "str?", "any list", "$t", "none", "int dict list", "function"]) }
    fn leaf(&mut self) -> Q {
        if self.bad() {
            let (s, m) = *self.r.pick(&[("foo", BARE), ("*$x", "positional spread not allowed here"), ("**$x", "named spread not allowed here"), ("...", "wildcard spread not allowed here"), ("$x::y", ATTR), ("$x::0", INDEX), ("$x::y::1", INDEX), ("$x?::y", ATTR),
                ("\"a $x::y\"", ATTR), ("\"a $x::1 b\"", INDEX), ("->", "unexpected"), ("&", "unexpected"), ("|", "unexpected"), ("!", "unexpected"), ("@f", "unexpected"), ("@let", "unexpected"), (":", "unexpected"), ("_: $t::u", ATTR), ("$x: $t::0", INDEX)]);
            return Bad(s, m);
        }
        let (s, h) = *self.r.pick(&[("_", true), ("$x", true), ("$y", true), (".", true), ("1", false), ("True", false), ("`a`", true), ("\"a b\"", true), ("\"$x b\"", true), ("'a $y'", true), ("=5", false), ("=[1]", false), ("=`a`", true), ("=@dict::new(a=1).", true), ("= $z", true), ("=False", false), ("=.", true), ("\"\"", true), ("=abc", true)]);
        Leaf(s, h)
    }
    fn bracket(&mut self, d: usize) -> Q {
        let n = self.r.below(4);
        match self.r.below(4) {
            0 => List(self.items(n, d, false)),
            1 => Seq(self.items(n, d, true)),
            2 => {
                let mut out: Vec<(Spread, String, Q)> = vec![];
                let names = ["a", "b", "c", "d", "long-x"];
                for i in 0..n { let k = if i > 0 && self.bad() { out[0].1.clone() } else if self.bad() { "_u".into() } else { names[i].replace("-x", "") }; let q = self.gen(d - 1); out.push((Spread::No, k, q)); }
                if self.r.chance(1, 3) { let s = if self.r.chance(1, 2) { Spread::Dots } else { Spread::DoubleStar }; let q = self.gen(d - 1); out.push((s, String::new(), q)); }
                if self.bad() { let s = if self.r.chance(1, 2) { Spread::Dots } else { Spread::DoubleStar }; out.insert(0, (s, String::new(), Leaf("$s", true))); }
                Dict(out)
            },
            _ => {
                let name = if self.bad() { *self.r.pick(&["$x::y", "1", ".", "$x::0"]) } else { *self.r.pick(&["a", "SPAN", "_", "$t", "div", "br", "IMG", "h1"]) };
                let mut attrs: Vec<(Spread, String, Option<Q>)> = vec![];
                for i in 0..n { let k = if i > 0 && self.bad() { attrs[0].1.clone() } else if self.bad() { "_u".into() } else { ["id", "b", "c", "d"][i].to_string() }; let q = if self.r.chance(1, 4) { None } else { Some(self.value(d)) }; attrs.push((Spread::No, k, q)); }
                if self.r.chance(1, 3) { let s = if self.r.chance(1, 2) { Spread::Dots } else { Spread::DoubleStar }; let q = self.value(d); attrs.push((s, String::new(), Some(q))); }
                if self.bad() { attrs.insert(0, (Spread::DoubleStar, String::new(), Some(Leaf("$s", true)))); }
                let content = if self.r.chance(1, 3) { None } else { Some(Box::new(self.gen(d - 1))) };
                let close = if self.bad() { "</wrong>" } else { *self.r.pick(&["</>", "", "up", "/>"]) };
                Tag(name, attrs, content, close)
            },
        }
    }
    fn item(&mut self, d: usize, html: bool) -> Q {
        loop {
            let q = self.gen(d - 1);
            // another token would continue the item before it, or be continued by the next
            if q.continues() || html && q.open_type() { continue; }
            if !html || q.html() || self.bad() { return q; }
        }
    }
    fn value(&mut self, d: usize) -> Q { loop { let q = self.gen(d - 1); if !q.open_type() { return q; } } }
    fn items(&mut self, n: usize, d: usize, html: bool) -> Vec<(Spread, Q)> {
        let mut out: Vec<(Spread, Q)> = vec![];
        for _ in 0..n { let q = self.item(d, html); out.push((Spread::No, q)); }
        let spreads = if self.bad() { 2 } else { self.r.below(2) };
        for _ in 0..spreads {
            let at = self.r.below(out.len() + 1);
            let q = self.item(d, html);
            out.insert(at, (if self.r.chance(1, 2) { Spread::Dots } else { Spread::Star }, q));
        }
        if self.bad() { out.push((Spread::DoubleStar, Leaf("$s", true))); }
        out
    }
}
fn void(n: &str) -> bool { matches!(n, "br" | "IMG") }
impl Q {
    fn html(&self) -> bool {
        match self { Leaf(_, h) => *h, Bad(..) | Typed(..) | Seq(_) | Tag(..) => true, And(qs) | Or(qs) => qs.iter().all(Q::html), List(_) | Dict(_) => false }
    }
    fn continues(&self) -> bool { match self { Bad(s, _) => s.starts_with(['*', '.', '&', '|', ':']), And(qs) | Or(qs) => qs[0].continues(), Typed(q, _) => q.continues(), _ => false } }
    /// Does it end with a type, which a name may continue?
    fn open_type(&self) -> bool { match self { Typed(_, t) => !t.starts_with('$'), And(qs) | Or(qs) => qs[qs.len() - 1].open_type(), _ => false } }
    /// All that is illegal in it.
    fn errors(&self, out: &mut Vec<&'static str>) {
        match self {
            Leaf(..) => {},
            Bad(_, m) => out.push(m),
            Typed(q, _) => q.errors(out),
            And(qs) | Or(qs) => qs.iter().for_each(|q| q.errors(out)),
            List(qs) | Seq(qs) => {
                for (s, q) in qs { if *s != Spread::Dots { q.errors(out); } if *s == Spread::DoubleStar { out.push("named spread not allowed here"); } }
                if qs.iter().filter(|q| matches!(q.0, Spread::Star | Spread::Dots)).count() > 1 { out.push("match pattern cannot have multiple spreads"); }
                if matches!(self, Seq(_)) { for (s, q) in qs { if *s != Spread::Dots && !q.html() { out.push("this pattern cannot match HTML content"); } } }
            },
            Dict(qs) => {
                for q in qs { if q.0 != Spread::Dots { q.2.errors(out); } }
                named(&qs.iter().map(|q| (q.0, &q.1[..])).collect::<Vec<_>>(), out);
            },
            Tag(n, qs, c, close) => {
                if n.contains("::y") { out.push(ATTR) } else if n.contains("::0") { out.push(INDEX) } else if *n == "1" || *n == "." { out.push("unexpected") }
                for q in qs { if q.0 != Spread::Dots { if let Some(p) = &q.2 { p.errors(out); } } }
                named(&qs.iter().map(|q| (q.0, &q.1[..])).collect::<Vec<_>>(), out);
                if !void(n) && *close != "/>" { if let Some(p) = c { p.errors(out); } if *close == "</wrong>" { out.push("incorrect closing tag in match pattern"); } }
            },
        }
    }
    fn src(&self, r: &mut Rng) -> String {
        match self {
            Leaf(s, _) | Bad(s, _) => s.to_string(),
            Typed(q, t) => { let q = q.src(r); format!("{q}{}:{}{t}", gap(r), gap(r)) },
            And(qs) => { let v: Vec<String> = qs.iter().map(|q| q.src(r)).collect(); v.join(*r.pick(&["& ", " & ", "\n& ", " &\n"])) },
            Or(qs) => { let v: Vec<String> = qs.iter().map(|q| q.src(r)).collect(); v.join(*r.pick(&["|", " | ", "\n|", " |\n"])) },
            List(qs) => { let mut s = "[".to_string(); for (i, q) in qs.iter().enumerate() { if i > 0 { s += ","; } s += gap(r); s += &item(&q.0, &q.1, r); s += gap(r); } if !qs.is_empty() && r.chance(1, 6) { s += ","; s += gap(r); } s + "]" },
            Seq(qs) => { let mut s = "{".to_string(); for (i, q) in qs.iter().enumerate() { s += if i > 0 { space(r) } else { gap(r) }; s += &item(&q.0, &q.1, r); } s += gap(r); s + "}" },
            Dict(qs) => { let mut s = "(".to_string(); for (i, q) in qs.iter().enumerate() { if i > 0 { s += ","; } s += gap(r); s += &entry(&q.0, &q.1, Some(&q.2), r); s += gap(r); } if !qs.is_empty() && r.chance(1, 6) { s += ","; s += gap(r); } s + ")" },
            Tag(n, qs, c, close) => {
                let mut s = format!("<{n}");
                for q in qs { s += space(r); s += &entry(&q.0, &q.1, q.2.as_ref(), r); }
                s += space(r);
                if *close == "/>" { return s + "/>"; }
                s += ">";
                if void(n) { return s; }
                if let Some(p) = c { s += gap(r); s += &p.src(r); s += gap(r); } else { s += gap(r); }
                let name = match *close { "" if n.chars().all(char::is_alphanumeric) => format!("</{}>", n.to_lowercase()), "up" if n.chars().all(char::is_alphanumeric) => format!("</{}>", n.to_uppercase()), "" | "up" => "</>".into(), c => c.into() };
                s + &name
            },
        }
    }
}
fn named(qs: &[(Spread, &str)], out: &mut Vec<&'static str>) {
    let mut spread = false;
    for (i, q) in qs.iter().enumerate() {
        if q.0 == Spread::No {
            if q.1.starts_with('_') { out.push("named pattern cannot begin with underscore"); }
            if spread { out.push("named pattern cannot occur after spread"); }
            else if qs[..i].contains(q) { out.push("duplicate named pattern"); }
        } else { if spread { out.push("cannot have multiple spread parameters"); } spread = true; }
    }
}
fn item(s: &Spread, q: &Q, r: &mut Rng) -> String { match s { Spread::No => q.src(r), Spread::Dots => "...".into(), Spread::Star => format!("*{}", q.src(r)), Spread::DoubleStar => format!("**{}", q.src(r)) } }
fn entry(s: &Spread, k: &str, q: Option<&Q>, r: &mut Rng) -> String {
    match (s, q) { (Spread::Dots, _) => "...".into(), (Spread::No, Some(q)) => format!("{k}{}={}{}", gap(r), space(r), q.src(r)), (Spread::No, None) => k.into(), (_, q) => format!("**{}{}", gap(r), q.map_or(String::new(), |q| q.src(r))) }
}

pub fn c31(run: &mut Run) {
    run.rule("random patterns with nested lists, sequences, dicts, tags, types, `&` and `|`, with white space and comments at random, legal ones and ones with each error: whether they are accepted, and the error if there is one");
    for _ in 0..run.scale(12000, 400000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let mut bad = match r.below(3) { 0 => 0, 1 => 25, _ => 10 };
        if r.chance(1, 8) { bad = 4; }
        let d = 1 + r.below(3);
        let q = G { r: &mut r, bad }.gen(d);
        let mut errors = vec![];
        q.errors(&mut errors);
        let p = q.src(&mut r);
        let src = format!("@let(z=1) @match @fn . -> . {{{}{p}{}->{}1, _ -> 2}}", gap(&mut r), space(&mut r), gap(&mut r));
        run.case(if errors.is_empty() { "legal" } else { "illegal" }, &src, true, || {
            let o = compile(&src);
            let syntax = !o.ok();
            ensure(syntax == !errors.is_empty(), if errors.is_empty() { "no error".into() } else { format!("{errors:?}") }, &o.diags)?;
            // what comes first may hide the rest
            if !errors.is_empty() { ensure(errors.iter().any(|e| o.diags.contains(e)), format!("one of {errors:?}"), &o.diags)?; }
            if errors.len() == 1 { ensure(o.diags.contains(errors[0]), errors[0], &o.diags)?; }
            Ok(())
        });
    }
    run.rule("patterns which are long are accepted like short ones, and match");
    for n in [10usize, 1000, 30_000] {
        for (name, text) in [("parts", "a b "), ("text", "é"), ("spaces", ". ")] {
            let t = text.repeat(n);
            run.case("long", &format!("{name} {n}"), true, || {
                let (got, diags) = eval_show_diag(&format!("@match `{t}k` {{\"{t}$x\" -> $x, _ -> no}}"));
                ensure(got == "`k`" || got == "t`k`" || got == "\"k\"", "k", format!("{got} {}", &diags[..diags.len().min(300)]))
            });
        }
        let m = n.min(1000);
        run.case("long", &format!("items {m}"), true, || check_eq(&"2".to_string(), &eval_show(&format!("@match [{}2] {{[{}$x] -> $x, _ -> no}}", "1, ".repeat(m), "_, ".repeat(m)))));
        let m = n.min(100);
        run.case("long", &format!("alternatives {m}"), true, || check_eq(&"2".to_string(), &eval_show(&format!("@match 7 {{{}7 -> 2, _ -> no}}", "1 | ".repeat(m)))));
    }
    run.rule("each form of a pattern, on values which it matches and ones which it does not: the result");
    for (v, branches, want) in [
        // precedence: `&` before `|`, and a type belongs to the pattern before it
        ("1", "1 | 2 & 3 -> yes, _ -> no", "yes"), ("2", "1 | 2 & 3 -> yes, _ -> no", "no"), ("3", "1 & 2 | 3 -> yes, _ -> no", "yes"), ("1", "1 & 2 | 3 -> yes, _ -> no", "no"), ("2", "1 | 2 | 3 -> yes, _ -> no", "yes"), ("3", "1 | 2 | 3 -> yes, _ -> no", "yes"), ("4", "1 | 2 | 3 -> yes, _ -> no", "no"),
        ("1", "$x: int & $y -> [$x, $y], _ -> no", "[1, 1]"), ("1", "$x & $y: str -> yes, _ -> no", "no"), ("1", "$x: str & $y -> yes, _ -> no", "no"), ("True", "$x: int | $y -> [$x, $y], _ -> no", "[., True]"), ("1", "$x & $y & $z -> [$x, $y, $z]", "[1, 1, 1]"), ("1", "$x & 2 & $z -> yes, _ -> no", "no"), ("1", "$x & $z & 2 -> yes, _ -> no", "no"),
        // types
        ("1", "_: int -> yes, _ -> no", "yes"), ("`1`", "_: int -> yes, _ -> no", "no"), ("1", "$x: int -> $x, _ -> no", "1"), ("`1`", "$x: int -> yes, _ -> no", "no"), ("1", "_: $t -> $t", "`int`"), ("[1]", "$x: $t -> [$x, $t]", "[[1], `int list`]"), (".", "_: none -> yes, _ -> no", "yes"), ("1", "_: int? -> yes, _ -> no", "yes"), (".", "_: int? -> yes, _ -> no", "yes"), ("[[1]]", "_: int list list -> yes, _ -> no", "yes"), ("[[`a`]]", "_: int list list -> yes, _ -> no", "no"),
        // literals
        (".", ". -> yes, _ -> no", "yes"), ("0", ". -> yes, _ -> no", "no"), ("False", ". -> yes, _ -> no", "no"), ("\"\"", ". -> yes, _ -> no", "no"), ("False", "True -> no, False -> yes", "yes"), ("-5", "-5 -> yes, _ -> no", "yes"), ("5", "-5 -> yes, _ -> no", "no"), ("`a`", "`a` -> yes, _ -> no", "yes"), ("`a`", "\"a\" -> yes, _ -> no", "yes"), ("`a`", "'a' -> yes, _ -> no", "yes"), ("`ab`", "`a` -> yes, _ -> no", "no"), ("`ab`", "\"a\" -> yes, _ -> no", "no"), ("\"\"", "\"\" -> yes, _ -> no", "yes"), ("`a`", "\"\" -> yes, _ -> no", "no"),
        ("`a`", "=a -> yes, _ -> no", "yes"), ("[1]", "=[1] -> yes, _ -> no", "yes"), ("[1]", "=[2] -> yes, _ -> no", "no"), ("[1, 1]", "[$x, =$x] -> yes, _ -> no", "yes"), ("[1, 2]", "[$x, =$x] -> yes, _ -> no", "no"), ("`$x`", "`$x` -> yes, _ -> no", "yes"),
        // lists
        ("[]", "[] -> yes, _ -> no", "yes"), ("[1]", "[] -> yes, _ -> no", "no"), ("[1]", "[1,] -> yes, _ -> no", "yes"), ("[1, 2]", "[1] -> yes, _ -> no", "no"), ("[]", "[...] -> yes, _ -> no", "yes"), ("[1, 2, 3]", "[...] -> yes, _ -> no", "yes"), ("[1, 2, 3]", "[..., $x] -> $x, _ -> no", "3"), ("[1, 2, 3]", "[*$x] -> $x, _ -> no", "[1, 2, 3]"), ("[1, 2, 3]", "[*$x: int list, $y] -> [$x, $y], _ -> no", "[[1, 2], 3]"), ("[1, 2, 3]", "[$a, *[2] | $b, $c] -> [$a, $b, $c], _ -> no", "[1, ., 3]"), ("1", "[...] -> yes, _ -> no", "no"), ("[[1, 2], 3]", "[[$x, *$y], *$z] -> [$x, $y, $z]", "[1, [2], [3]]"), (".", "[] -> yes, _ -> no", "no"),
        // sequences of HTML
        (".", "{} -> yes, _ -> no", "yes"), ("{<i>a</i>}", "{} -> yes, _ -> no", "no"), ("{<i>a</i><b>c</b>}", "{$x $y} -> [$y, $x], _ -> no", "[<b>c</b>, <i>a</i>]"), ("{<i>a</i><b>c</b>}", "{$x} -> yes, _ -> no", "no"), ("{<i>a</i><b>c</b>}", "{$x ...} -> $x, _ -> no", "<i>a</i>"), ("{<i>a</i><b>c</b>}", "{*$x} -> yes, _ -> no", "yes"), ("{<i>a</i>}", "{$x} -> $x, _ -> no", "<i>a</i>"), ("{<i>a</i>}", "{<i>_</i>} -> yes, _ -> no", "yes"), (".", "{...} -> yes, _ -> no", "yes"), ("[1]", "{...} -> yes, _ -> no", "no"), ("{<i>a</i><b>c</b>}", "{<i>$x</><b>$y</>} -> [$x, $y], _ -> no", "[{a}, {c}]"),
        // dicts
        ("@dict::new(a=1, b=2).", "(a=$x, b=$y) -> [$y, $x], _ -> no", "[2, 1]"), ("@dict::new(a=1, b=2).", "(b=$y, a=$x) -> [$y, $x], _ -> no", "[2, 1]"), ("@dict::new(a=1, b=2).", "(a=$x) -> yes, _ -> no", "no"), ("@dict::new(a=1, b=2).", "(a=$x, ...) -> $x, _ -> no", "1"), ("@dict::new(a=1, b=2).", "(a=$x, **(b=$y)) -> [$x, $y], _ -> no", "[1, 2]"), ("@dict::new(a=1, b=2).", "(**$d) -> $d::b, _ -> no", "2"), ("1", "(**$d) -> yes, _ -> no", "no"), ("1", "(...) -> yes, _ -> no", "no"), ("@dict::new().", "() -> yes, _ -> no", "yes"), ("@dict::new(a=1).", "() -> yes, _ -> no", "no"), ("[]", "() -> yes, _ -> no", "no"), ("@dict::new(a=.).", "(a=.,) -> yes, _ -> no", "yes"),
        // tags
        ("<i id=`k`>a</i>", "<i id=$k>$c</i> -> [$k, $c], _ -> no", "[`k`, {a}]"), ("<i id=`k`>a</i>", "<I id=$k>$c</I> -> [$k, $c], _ -> no", "[`k`, {a}]"), ("<i id=`k`>a</i>", "<i ID=$k>$c</i> -> yes, _ -> no", "no"), ("<i id=`k`>a</i>", "<i>$c</i> -> yes, _ -> no", "no"), ("<i id=`k`>a</i>", "<i ...>$c</i> -> $c, _ -> no", "{a}"), ("<i id=`k`>a</i>", "<i **$d>$c</i> -> $d::id, _ -> no", "`k`"), ("<i id=`k`>a</i>", "<i **(id=$k)>_</i> -> $k, _ -> no", "`k`"), ("<i id=`k` lang=`en`>a</i>", "<i lang=$l **$d>_</i> -> [$l, $d::id], _ -> no", "[`en`, `k`]"), ("<i id=`k`>a</i>", "<b ...>$c</> -> yes, _ -> no", "no"), ("<i id=`k`>a</i>", "<_ ...>$c</> -> $c, _ -> no", "{a}"), ("<i id=`k`>a</i>", "<$t ...>_</> -> $t, _ -> no", "`i`"), ("<i hidden>a</i>", "<i hidden>$c</i> -> $c, _ -> no", "{a}"), ("<i hidden=`x`>a</i>", "<i hidden>$c</i> -> yes, _ -> no", "no"), ("<i hidden>a</i>", "<i hidden=.>$c</i> -> $c, _ -> no", "{a}"), ("<i/>", "<i/> -> yes, _ -> no", "yes"), ("<i/>", "<i></i> -> yes, _ -> no", "yes"), ("<i>a</i>", "<i/> -> yes, _ -> no", "no"), ("<i>a</i>", "<i></i> -> yes, _ -> no", "no"), ("<br>", "<br> -> yes, _ -> no", "yes"), ("<br>", "<br/> -> yes, _ -> no", "yes"), ("<i><b>a</b></i>", "<i><b>$x</b></i> -> $x, _ -> no", "{a}"), ("<i>a</i>", "<i><b>$x</b></i> | <i>$y</i> -> [$x, $y], _ -> no", "[., {a}]"), ("<i>a</i>", "<i> <b>$x</b> | $y </i> -> [$x, $y], _ -> no", "[., {a}]"), ("<i>a</i>", "<$t & `i`>_</> -> yes, _ -> no", "error"), ("1", "<_ ...>_</> -> yes, _ -> no", "no"), ("<i a=1 b=2></i>", "<i b=$x a=$y/> -> [$x, $y], _ -> no", "[`2`, `1`]"),
        // templates
        ("`a 1 b`", "\"a $x b\" -> $x, _ -> no", "`1`"), ("`a  1\tb`", "\"a $x b\" -> $x, _ -> no", "`1`"), ("`a1b`", "\"a $x b\" -> yes, _ -> no", "no"), ("`a  b`", "\"a $x b\" -> yes, _ -> no", "no"), ("`a  b`", "\"a b\" -> yes, _ -> no", "yes"), ("`ab`", "\"a b\" -> yes, _ -> no", "no"), ("`a b`", "\"a b\" -> yes, _ -> no", "yes"), ("`x.y`", "\"$a.$b\" -> [$a, $b], _ -> no", "[`x`, `y`]"), ("`xzy`", "\"$a.$b\" -> yes, _ -> no", "no"), ("`1+2*3`", "\"$a+$b*$c\" -> [$a, $b, $c], _ -> no", "[`1`, `2`, `3`]"), ("`a-b-c`", "\"$a-$b\" -> [$a, $b], _ -> no", "[`a`, `b-c`]"), ("`(k)`", "\"($x)\" -> $x, _ -> no", "`k`"), ("```a\nb```", "\"$x\" -> $x, _ -> no", "```a\nb```"), ("```a\nb```", "\"a $x\" -> $x, _ -> no", "`b`"), ("```k\nb```", "\"k$x\" -> yes, _ -> no", "yes"), ("```k\n```", "\"k$x\" -> yes, _ -> no", "yes"), ("\"\"", "\"$x\" -> yes, _ -> no", "no"), ("1", "\"$x\" -> yes, _ -> no", "no"), ("`a\"b`", "\"$x\\\"$y\" -> [$x, $y], _ -> no", "[`a`, `b`]"), ("`a&b`", "\"$x&amp;$y\" -> [$x, $y], _ -> no", "[`a`, `b`]"), ("`a^b|c`", "\"$x^$y|$z\" -> [$x, $y, $z], _ -> no", "[`a`, `b`, `c`]"), ("`ab`", "'{$x}b' -> $x, _ -> no", "`a`"), ("`abc`", "\"$x\" & 'a$y' -> [$x, $y], _ -> no", "[`abc`, `bc`]"), ("`xab`", "\"a$x\" -> yes, _ -> no", "no"), ("`a[b]`", "\"$x[$y]\" -> [$x, $y], _ -> no", "[`a`, `b`]"), ("`a\\b`", "\"$x\\\\$y\" -> [$x, $y], _ -> no", "[`a`, `b`]"), ("`A1`", "\"a$x\" -> yes, _ -> no", "no"),
        // branches
        ("1", "$x -> $x, _ -> no", "1"), ("1", "2 -> no, 1 -> yes, 1 -> no", "yes"), ("1", "1 -> yes,", "yes"), ("1", "2 -> no", "error"), ("1", "", "error"), ("1", "1 -> @match 2 {2 -> yes}, _ -> no", "yes"), ("1", "1 -> {yes} | 2 -> no", "error"), ("1", "1 -> yes 2 -> no", "error"), ("1", "1 yes", "error"), ("1", "-> yes", "error"), ("1", "1 -> ", "error"), ("1", "1 -> ,", "error"), ("1", "1 = yes", "error"), ("1", ", 1 -> yes", "error"), ("1", "1 -> yes,,", "error"),
        // illegal tokens
        ("1", "& 1 -> yes", "error"), ("1", "1 & -> yes", "error"), ("1", "| 1 -> yes", "error"), ("1", "1 | -> yes", "error"), ("1", "= -> yes", "error"), ("1", ": int -> yes", "error"), ("1", "$x: -> yes", "error"), ("1", "$x: 5 -> yes", "error"), ("1", "1: int -> yes", "error"), ("[1]", "[1]: int list -> yes", "error"), ("[1, 2]", "[1 2] -> yes", "error"), ("[1]", "[,1] -> yes", "error"), ("[1]", "[1,,] -> yes", "error"), ("[1]", "[1 -> yes", "error"), ("[1]", "[1} -> yes", "error"), ("1", "(a 1) -> yes", "error"), ("1", "(a) -> yes", "error"), ("1", "(a:1) -> yes", "error"), ("1", "(a=1 b=2) -> yes", "error"), ("1", "(*$x) -> yes", "error"), ("1", "($x=1) -> yes", "error"), ("1", "(1=1) -> yes", "error"), ("1", "{$x, $y} -> yes", "error"), ("1", "<i a=1, b=2></i> -> yes", "error"), ("1", "<i></b> -> yes", "error"), ("1", "<i>1 -> yes", "error"), ("1", "<i>1 2</i> -> yes", "error"), ("1", "<_>1</_> -> yes", "error"), ("1", "<$x>1</x> -> yes", "error"), ("1", "<br></br> -> yes, _ -> no", "error"), ("1", "</i> -> yes", "error"), ("1", "<i/ > -> yes", "error"), ("1", "<!DOCTYPE html> -> yes", "error"), ("1", "<i **$x **$y/> -> yes", "error"), ("1", "<i **$x a/> -> yes", "error"), ("1", "<i ... a/> -> yes", "error"), ("1", "<i a a/> -> yes", "error"), ("1", "<i _a/> -> yes", "error"), ("1", "<i *$x/> -> yes", "error"), ("1", "... -> yes", "error"), ("1", "[...: int] -> yes", "error"), ("1", "[**$x] -> yes", "error"), ("1", "(... = 1) -> yes", "error"), ("1", "{[1]} -> yes", "error"), ("1", "{(a=1)} -> yes", "error"), ("1", "{1 | $x} -> yes", "error"), ("1", "{$x & True} -> yes", "error"), ("1", "{*[1]} -> yes", "error"), ("1", "{=5} -> yes", "error"), ("1", "{=[5]} -> yes", "error"), ("1", "{$x: int} -> yes, _ -> no", "no"), ("1", "{`a`} -> yes, _ -> no", "no"), ("1", "[{[1]}] -> yes", "error"), ("1", "{{[1]}} -> yes", "error"), ("1", "{<i>1</i>} -> yes, _ -> no", "no"), ("1", "{<i a=[1]>1</i>} -> yes, _ -> no", "no"),
    ] {
        let src = format!("@match {v} {{{branches}}}");
        run.case("fixed", &src, true, || {
            let wanted = want; let want = match want { "error" => "error".into(), "yes" | "no" => format!("{want:?}"), w => eval_show(w) };
            let (got, diags) = eval_show_diag(&src);
            ensure(wanted == "error" || want != "error", "a value", &want)?;
            ensure(got == want || got == format!("t{want}") || want == format!("t{got}"), want, format!("{got} {diags}"))
        });
    }
}
