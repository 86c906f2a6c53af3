//! C10, C11, C12, C13, C14, C24: types, coercion, lists, integers.
use crate::model::*;
use crate::util::*;
use papyri_lang::compiler::Value;

fn matches_type(c: &mut papyri_lang::compiler::Context, v: &V, t: &str) -> Result<bool, (String, String)> {
    c.reset();
    match eval_in(c, &format!("@match {} {{ _: {t} -> True, _ -> False }}", v.expr())) {
        Ok(Value::Bool(b)) => Ok(b),
        r => Err((format!("{} matched against {t}", v.expr()), format!("{r:?}"))),
    }
}
fn type_name(c: &mut papyri_lang::compiler::Context, v: &V) -> Result<String, (String, String)> {
    c.reset();
    match eval_in(c, &format!("@match {} {{ _: $t -> $t }}", v.expr())) {
        Ok(Value::Str(s)) => Ok(s.to_string()),
        r => Err((format!("the type of {}", v.expr()), format!("{r:?}"))),
    }
}

fn all_values(run: &mut Run) -> Vec<V> {
    let mut vs = values();
    for _ in 0..run.scale(150, 1500) { let d = 1 + run.rng.below(3); vs.push(random_value(&mut run.rng, d)); }
    vs
}

pub fn c10(run: &mut Run) {
    run.rule("values: every primitive kind, lists and dicts of up to 3 of them, nested and random values; types: all of depth 2 (thorough: also the pairs of depth 2 with depth 3); non-trivial: not a primitive, or two different types");
    let vs = all_values(run);
    for v in &vs {
        run.case("reported-type", &v.expr(), matches!(v, V::List(_) | V::Dict(_)), || with_ctx(|c| {
            let t = type_name(c, v)?;
            ensure(matches_type(c, v, &t)?, format!("{} accepted by its type", v.expr()), format!("type {t} rejects it"))?;
            let parsed = T::parse(&t).ok_or_else(|| ("a type in normal form".to_string(), t.clone()))?;
            ensure(parsed.accepts(v), "a type which accepts the value", t.clone())?;
            // every item is accepted by the reported item type
            let items: Vec<&V> = match v { V::List(vs) => vs.iter().collect(), V::Dict(vs) => vs.iter().map(|p| &p.1).collect(), _ => vec![] };
            if let T::List(it) | T::Dict(it) = parsed {
                for i in items {
                    ensure(matches_type(c, i, &it.print())?, format!("item {} accepted by {}", i.expr(), it.print()), "rejected")?;
                }
            }
            Ok(())
        }));
        if run.done() { return; }
    }
    #[cfg(papyri_verif)]
    {
        use papyri_lang::compiler::verif;
        let vals: Vec<(V, Value)> = vs.iter().filter_map(|v| eval(&v.expr()).ok().map(|x| (v.clone(), x))).collect();
        let ts = types(2);
        let ts3: Vec<T> = types(3);
        let accept = |t: &T| -> Vec<bool> { let p = t.print(); vals.iter().map(|(_, x)| verif::type_check(&p, x)).collect() };
        let mut table: std::collections::HashMap<String, Vec<bool>> = Default::default();
        let right = if run.thorough { &ts3 } else { &ts };
        for a in &ts {
            for b in right {
                let (ap, bp) = (a.print(), b.print());
                run.case("lub", &format!("{ap} | {bp}"), a != b, || {
                    let l = verif::type_lub(&ap, &bp);
                    check_eq(&l, &verif::type_lub(&bp, &ap))?;
                    if a == b { check_eq(&ap, &l)?; }
                    let lt = T::parse(&l).ok_or_else(|| ("a type in normal form".to_string(), l.clone()))?;
                    for t in [a, b, &lt] { if !table.contains_key(&t.print()) { table.insert(t.print(), accept(t)); } }
                    let (xa, xb, xl) = (&table[&ap], &table[&bp], &table[&l]);
                    for i in 0..vals.len() {
                        if !xl[i] && (xa[i] || xb[i]) { return Err((format!("{l} accepts {}", vals[i].0.expr()), "rejected".into())); }
                        let m = lt.accepts(&vals[i].0);
                        if m != xl[i] { return Err((format!("{l} accepts {}: {m}", vals[i].0.expr()), xl[i].to_string())); }
                    }
                    Ok(())
                });
                if run.done() { return; }
            }
        }
        for (v, x) in &vals {
            run.case("hook", &v.expr(), true, || ensure(verif::type_check(&verif::type_of(x), x), "accepted by its type", verif::type_of(x)));
        }
    }
}

pub fn c24(run: &mut Run) {
    run.rule("all types of depth 2 (thorough: 3) as annotations, against values of every kind; the reported type of each value; all pairs for the common type; types with redundant question marks; non-trivial: not a primitive type");
    let vs = all_values(run);
    let some: Vec<V> = simple_values().into_iter().chain(vs.iter().skip(12).step_by(5).cloned()).collect();
    let n = run.scale(2, 3);
    for t in types(n) {
        run.case("annotation", &t.print(), !PRIMS.contains(&t), || with_ctx(|c| {
            for v in &some {
                check_eq(&(v.expr(), t.accepts(v)), &(v.expr(), matches_type(c, v, &t.print())?))?;
            }
            // a type is optional at most once, and `?` adds exactly none
            for v in &some {
                check_eq(&(v.expr(), t.accepts(v) || *v == V::None), &(v.expr(), matches_type(c, v, &format!("{}?", t.print()))?))?;
            }
            c.reset();
            let o = compile_in(c, &format!("@fn f($_x: {}) $y -> 1", t.print())).0;
            ensure(o.clean(), "an annotation without a message", o.diags)?;
            c.reset();
            let o = compile_in(c, &format!("@fn f($_x: {}?) $y -> 1", t.print())).0;
            check_eq(&(0, t.takes_none() as u32), &(o.errors, o.warnings))
        }));
        if run.done() { return; }
    }
    for v in &vs {
        run.case("typeof", &v.expr(), matches!(v, V::List(_) | V::Dict(_)), || with_ctx(|c| {
            let t = type_name(c, v)?;
            let parsed = T::parse(&t).ok_or_else(|| ("a type in normal form".to_string(), t.clone()))?;
            // the annotation with that text denotes the same type
            for w in &some { check_eq(&(&t, w.expr(), parsed.accepts(w)), &(&t, w.expr(), matches_type(c, w, &t)?))?; }
            Ok(())
        }));
        if run.done() { return; }
    }
    // types in messages
    for t in types(n) {
        if t.accepts(&V::Func) || t.print().contains("list") && t.print().contains("dict") { continue; }
        let bad = if matches!(t, T::Opt(_)) { continue } else { V::Func };
        run.case("message", &t.print(), true, || {
            let o = compile(&format!("@fn f($_x: {}) . -> 1 @f({}).", t.print(), bad.expr()));
            ensure(o.errors == 1 && o.diags.contains(&t.print()), format!("an error which names the type {}", t.print()), o.diags)
        });
        if run.done() { return; }
    }
    #[cfg(papyri_verif)]
    {
        use papyri_lang::compiler::verif;
        for t in types(3) {
            let p = t.print();
            run.case("option", &p, !PRIMS.contains(&t), || {
                check_eq(&p, &verif::type_lub(&p, &p))?;
                let o = verif::type_lub(&p, "none");
                let want = if t == T::Any { T::Any } else { t.clone().opt() };
                check_eq(&want.print(), &o)?;
                check_eq(&o, &verif::type_lub(&o, "none"))
            });
            if run.done() { return; }
        }
    }
}

pub fn c11(run: &mut Run) {
    run.rule("all types of depth 2 against values of every kind, by coercion, as a positional, named, content, spread and implicit argument, a list item, a callback result and a call result; non-trivial: the value is not already accepted");
    let vs = all_values(run);
    #[cfg(papyri_verif)]
    {
        use papyri_lang::compiler::verif;
        let ts = types(2);
        for v in &vs {
            let Ok(x) = eval(&v.expr()) else { run.case("value", &v.expr(), false, || Err(("a value".into(), "error".into()))); continue };
            for t in &ts {
                let p = t.print();
                run.case("coerce", &format!("{} as {p}", v.expr()), !t.accepts(v), || with_ctx(|c| {
                    let before = t.accepts(v);
                    match verif::coerce(c, &p, &x) {
                        None => ensure(!before, "the value is accepted", "a type error"),
                        Some(y) => {
                            ensure(verif::type_check(&p, &y), format!("a value of type {p}"), show(&y))?;
                            if before && !t.has_block() { check_eq(&show(&x), &show(&y))?; }
                            // scalars are not replaced by something else
                            match (t, v, &y) {
                                (T::Str, V::Int(i), Value::Str(s)) => check_eq(&i.to_string(), &s.to_string())?,
                                (T::Str, V::Bool(b), Value::Str(s)) => check_eq(&(if *b { "True" } else { "False" }), &s.as_ref())?,
                                _ => {},
                            }
                            if let (V::List(a), Value::List(b)) = (v, &y) { check_eq(&a.len(), &b.as_ref().len())?; }
                            if let (V::Dict(a), Value::Dict(b)) = (v, &y) { check_eq(&a.len(), &b.len())?; }
                            Ok(())
                        },
                    }
                }));
                if run.done() { return; }
            }
        }
    }
    // long lists and dicts with one item which has to be converted
    for n in [1usize, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65, 100, 130, 257] {
        for k in [0, 1, n / 2, n.saturating_sub(2), n - 1] {
            let item = |i: usize| if i == k { "7" } else { "`s`" };
            let l: String = (0..n).map(item).collect::<Vec<_>>().join(", ");
            let d: String = (0..n).map(|i| format!("a{i}={}", item(i))).collect::<Vec<_>>().join(", ");
            for (v, t) in [(format!("[{l}]"), "str list"), (format!("@dict::new({d})."), "str dict"), (format!("[[{l}], [{l}]]"), "str list list")] {
                let src = format!("@fn f $x: {t} -> {{@match $x {{_: {t} -> yes, _ -> no}}}}\n@let(l={v}) {{@f $l}}");
                run.case("long", &src, true, || with_ctx(|c| {
                    let (o, _, _) = compile_in(c, &src);
                    ensure(o.html.contains("yes"), "yes", format!("{} {}", o.html, o.diags))
                }));
            }
        }
        if run.done() { return; }
    }
    let ts: Vec<T> = types(2).into_iter().filter(|t| *t != T::Any).collect();
    let n = run.scale(6000, 200000);
    for _ in 0..n {
        let t = run.rng.pick(&ts).clone();
        let v = run.rng.pick(&vs).clone();
        let (p, e) = (t.print(), v.expr());
        let test = format!("@match $x {{ _: {p} -> True, _ -> False }}");
        let test_ = test.replace("$x", "$_x");
        let kind = run.rng.below(10);
        let (name, prelude, expr) = match kind {
            0 => ("positional", format!("@fn f($_x: {p}) . -> {test_}"), format!("@f({e}).")),
            1 => ("named", format!("@fn f($x: {p}) . -> {test}"), format!("@f(x={e}).")),
            2 => ("content", format!("@fn f $x: {p} -> {test}"), format!("@let(y={e}) @f $y")),
            3 => ("spread", format!("@fn f(*$_xs: {p} list) . -> @match $_xs {{ _: {p} list -> True, _ -> False }}"), format!("@f({e}, {e}).")),
            4 => ("named spread", format!("@fn f(**$xs: {p} dict) . -> @match $xs {{ _: {p} dict -> True, _ -> False }}"), format!("@f(a={e}, b={e}).")),
            5 => ("implicit", format!("@fn f($x: @implicit {p}) . -> {test}"), format!("@implicit(x={e}) @f.")),
            6 => ("call result", format!("@fn g . -> {e}\n@fn f($_x: {p}) . -> {test_}"), "@f(@g.).".to_string()),
            7 => ("coalescing", format!("@fn f($_x: {p}) . -> {test_}"), "@let(y=.) @f(@y?::map($list::len).).".to_string()),
            8 => ("list item", format!("@fn f($_x: {p} list) . -> @match $_x {{ _: {p} list -> True, _ -> False }}"), format!("@f([{e}, {e}]).")),
            _ => ("partial", format!("@fn f($_x: {p}, $_z: {p}) . -> @match [$_x, $_z] {{ _: {p} list -> True, _ -> False }}"), format!("@let(g=$f::bind({e}).) @g({e}).")),
        };
        let expr = if kind == 9 { format!("@let(g=@f::bind({e}).) @g({e}).") } else { expr };
        run.case(name, &format!("{prelude} {expr}"), !t.accepts(&v), || with_ctx(|c| {
            let (o, _, xs) = compile_in(c, &format!("{prelude}\n@export(v={expr})."));
            if o.errors > 0 {
                if kind == 7 { return ensure(!t.takes_none(), "none is accepted", o.diags); }
                return ensure(!t.accepts(&v), format!("{e} is accepted by {p}"), o.diags);
            }
            match xs.first() { Some(Value::Bool(true)) => Ok(()), r => Err((format!("a value of type {p} in the parameter"), format!("{r:?} {}", o.diags))) }
        }));
        if run.done() { return; }
    }
    // results of callbacks
    for (f, e) in [("$list::len", "[[1], []]"), ("$str::from", "[`a`]"), ("$int::negate", "[1]")] {
        for m in ["filter", "any", "all", "find"] {
            run.case("callback", &format!("{m} {f} {e}"), true, || {
                let r = eval(&format!("@list::{m}({f}) {e}"));
                ensure(r.is_err(), "a type error, as the callback does not give a bool", format!("{r:?}"))
            });
        }
    }
    // a value which is already of the type is unchanged as an argument
    for v in &vs {
        run.case("unchanged", &v.expr(), true, || with_ctx(|c| {
            let t = type_name(c, v)?;
            c.reset();
            let a = show(&eval_in(c, &v.expr()).map_err(|d| ("a value".to_string(), d))?);
            c.reset();
            let (o, _, xs) = compile_in(c, &format!("@fn f($_x: {t}) . -> $_x\n@export(v=@f({}).).", v.expr()));
            ensure(o.errors == 0, "no error", o.diags)?;
            check_eq(&a, &show(&xs[0]))
        }));
        if run.done() { return; }
    }
}

// ------------------------------------------------------------------ C12

fn ref_get(n: usize, i: i64) -> Option<usize> {
    let j = i as i128;
    let n = n as i128;
    let k = if j < 0 { j + n } else { j };
    if 0 <= k && k < n { Some(k as usize) } else { None }
}
fn ref_slice(n: usize, a: i64, b: Option<i64>) -> (usize, usize) {
    let n = n as i128;
    let pos = |x: i128| if x < 0 { (x + n).max(0) } else { x.min(n) };
    let b = b.map_or(n, |b| pos(b as i128));
    let a = pos(a as i128).min(b);
    (a as usize, b as usize)
}

pub fn c12(run: &mut Run) {
    run.rule("all lists of up to 5 (thorough: 8) items, all positions within 3 of either end and extreme ones, slices of slices of slices; the same for names like $xs::0 and list patterns; non-trivial: the list is not empty");
    let max = run.scale(5, 8);
    let extreme = [i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 1 << 32, -(1 << 32), u32::MAX as i64, 1 << 31, 1 << 40];
    for n in 0..=max {
        let xs: Vec<i64> = (0..n as i64).map(|i| 10 + i * 7).collect();
        let list = V::int_list(&xs).show();
        let mut pos: Vec<i64> = (-(n as i64) - 3..=n as i64 + 3).collect();
        pos.extend(extreme);
        for &i in &pos {
            let want = ref_get(n, i).map_or("error".into(), |k| xs[k].to_string());
            for e in [format!("@list::get({i}) {list}"), format!("@let(xs={list}) $xs::{i}"), format!("@let(xs={list}, j={i}) @xs::get($j).")] {
                run.case("get", &e, n > 0, || {
                    let (g, d) = eval_show_diag(&e);
                    check_eq(&want, &g)?;
                    if want == "error" { ensure(d.contains("out of bounds"), "an index error", d)?; }
                    Ok(())
                });
            }
            if run.done() { return; }
            for b in pos.iter().map(|b| Some(*b)).chain([None]) {
                let (p, q) = ref_slice(n, i, b);
                let args = match b { Some(b) => format!("{i}, {b}"), None => i.to_string() };
                let e = format!("@let(xs={list}) [@xs::slice({args})., $xs]");
                let want = format!("[{}, {list}]", V::int_list(&xs[p..q]).show());
                run.case("slice", &e, n > 0, || check_eq(&want, &eval_show(&e)));
                if run.done() { return; }
            }
        }
    }
    for _ in 0..run.scale(3000, 60000) {
        let n = run.rng.below(9);
        let mut xs: Vec<i64> = (0..n as i64).collect();
        let mut e = V::int_list(&xs).show();
        for _ in 0..1 + run.rng.below(3) {
            let p = |rng: &mut Rng| rng.below(2 * n + 4) as i64 - n as i64 - 2;
            let (a, b) = (p(&mut run.rng), if run.rng.chance(1, 4) { None } else { Some(p(&mut run.rng)) });
            let (i, j) = ref_slice(xs.len(), a, b);
            xs = xs[i..j].to_vec();
            e = match b { Some(b) => format!("@list::slice({a}, {b}) {e}"), None => format!("@list::slice({a}) {e}") };
        }
        let i = run.rng.below(2 * n + 4) as i64 - n as i64 - 2;
        let m = xs.len();
        let want = V::List(vec![V::int_list(&xs), V::Int(m as i64), V::Bool(m == 0), V::int_list(&xs.iter().rev().copied().collect::<Vec<_>>()), V::Bool(true), V::int_list(&xs), V::int_list(&[xs.clone(), xs.clone()].concat())]).show();
        let eq = format!("@match $s {{ ={} -> True, _ -> False }}", V::int_list(&xs).show());
        let prog = format!("@let(s={e}) [$s, @s::len., @s::is_empty., @list::reversed $s, {eq}, [*$s], @list::flat [$s, $s]]");
        run.case("slices", &prog, n > 0, || check_eq(&want, &eval_show(&prog)));
        let want = ref_get(m, i).map_or("error".into(), |k| xs[k].to_string());
        let prog = format!("@let(s={e}) $s::{i}");
        run.case("get-of-slice", &prog, n > 0, || check_eq(&want, &eval_show(&prog)));
        // list patterns take slices
        if m >= 2 {
            let prog = format!("@let(s={e}) @match $s {{ [$a, *$r, $b] -> [$a, $r, $b, @r::slice(1)., @r::len.] }}");
            let r = &xs[1..m - 1];
            let want = V::List(vec![V::Int(xs[0]), V::int_list(r), V::Int(xs[m - 1]), V::int_list(&r[1.min(r.len())..]), V::Int(r.len() as i64)]).show();
            run.case("pattern", &prog, true, || check_eq(&want, &eval_show(&prog)));
        }
        // patterns take slices of slices (a call makes a new list of one)
        let n = run.rng.below(9);
        let mut xs: Vec<i64> = (0..n as i64).map(|i| 3 * i + 1).collect();
        let (mut head, mut tail) = (format!("@let(s0={}) ", V::int_list(&xs).show()), String::new());
        let mut depth = 0;
        for _ in 0..1 + run.rng.below(4) {
            let (l, r) = (run.rng.below(3), run.rng.below(3));
            if l + r > xs.len() { break; }
            let items: Vec<String> = (0..l).map(|_| "$_".to_string()).chain([format!("*$s{}", depth + 1)]).chain((0..r).map(|_| "$_".to_string())).collect();
            head.push_str(&format!("@match $s{depth} {{[{}] -> ", items.join(", ")));
            tail.push('}');
            depth += 1;
            xs = xs[l..xs.len() - r].to_vec();
        }
        let v = format!("$s{depth}");
        let i = run.rng.below(2 * n + 4) as i64 - n as i64 - 2;
        let get = ref_get(xs.len(), i);
        let prog = format!("{head}[{v}, [*{v}], @s{depth}::len., @list::flat [{v}, {v}]{}]{tail}", if get.is_some() { format!(", {v}::{i}") } else { String::new() });
        let mut want = vec![V::int_list(&xs), V::int_list(&xs), V::Int(xs.len() as i64), V::int_list(&[xs.clone(), xs.clone()].concat())];
        want.extend(get.map(|k| V::Int(xs[k])));
        run.case("slices-of-slices", &prog, n > 0, || check_eq(&V::List(want.clone()).show(), &eval_show(&prog)));
        // two slices of one list are equal when their items are
        let (n, m) = (2 + run.rng.below(5), 1 + run.rng.below(3));
        let xs: Vec<i64> = (0..n).map(|_| run.rng.below(m) as i64).collect();
        let mut part = |name: &str| {
            let l = run.rng.below(n);
            let r = run.rng.below(n - l);
            let items: Vec<String> = (0..l).map(|_| "_".to_string()).chain([format!("*${name}")]).chain((0..r).map(|_| "_".to_string())).collect();
            (format!("[{}]", items.join(", ")), l, n - r)
        };
        let ((p, a, b), (q, c, d)) = (part("p"), part("q"));
        let prog = format!("@match {} {{{p} & {q} -> [@match $p {{=$q -> True, _ -> False}}, @match [$p, 1] {{[=$q, _] -> True, _ -> False}}, @match $p {{={} -> True, _ -> False}}]}}", V::int_list(&xs).show(), V::int_list(&xs[c..d]).show());
        let same = V::Bool(xs[a..b] == xs[c..d]);
        run.case("equal-slices", &prog, true, || check_eq(&V::List(vec![same.clone(), same.clone(), same.clone()]).show(), &eval_show(&prog)));
        if run.done() { return; }
    }
}

// ------------------------------------------------------------------ C13

pub fn c13(run: &mut Run) {
    run.rule("random lists of integers with repeated keys, strings and nested lists, of up to 8 items (some longer), through every list function, against reference implementations; callbacks which fail on one item; non-trivial: at least 2 items");
    let prelude = "@fn key $x -> @match $x { _: int -> @tens(of=$x)., _: list -> $x::0, _: str -> $x, _ -> 0 }\n";
    let _ = prelude;
    for round in 0..run.scale(1500, 30000) {
        let n = if round % 50 == 0 { 20 + run.rng.below(60) } else { run.rng.below(9) };
        let range = 1 + run.rng.below(6) as i64;
        let xs: Vec<i64> = (0..n).map(|_| run.rng.below(2 * range as usize + 1) as i64 - range).collect();
        let l = V::int_list(&xs).show();
        // pairs [key, position] show stability
        let pairs: Vec<(i64, usize)> = xs.iter().copied().enumerate().map(|(i, k)| (k, i)).collect();
        let show_pairs = |ps: &[(i64, usize)]| V::List(ps.iter().map(|p| V::int_list(&[p.0, p.1 as i64])).collect()).show();
        let pl = show_pairs(&pairs);
        let mut asc = pairs.clone(); asc.sort_by_key(|p| p.0);
        let mut desc = pairs.clone(); desc.sort_by_key(|p| -p.0);
        let words = ["b", "a", "B", "ab", "", "é", "z", "aa", "10", "9"];
        let ss: Vec<String> = (0..n).map(|_| run.rng.pick(&words).to_string()).collect();
        let sl = V::List(ss.iter().map(|s| V::Str(s.clone())).collect());
        let mut sasc = ss.clone(); sasc.sort();
        let mut sdesc = ss.clone(); sdesc.sort_by(|a, b| b.cmp(a));
        let slist = |v: &[String]| V::List(v.iter().map(|s| V::Str(s.clone())).collect()).show();
        let mut iasc = xs.clone(); iasc.sort();
        let idesc: Vec<i64> = iasc.iter().rev().copied().collect();
        let pos = |x: i64| x > 0;
        let first_pos = xs.iter().copied().find(|x| pos(*x)).map_or(".".into(), |x| x.to_string());
        let from = run.rng.below(5) as i64 - 2;
        let enumd = |from: i64| V::List(xs.iter().enumerate().map(|(i, x)| V::int_list(&[from + i as i64, *x])).collect()).show();
        let mixed: Vec<V> = xs.iter().map(|x| if *x > 0 { V::int_list(&[*x, *x]) } else if *x < 0 { V::List(vec![V::int_list(&[*x])]) } else { V::None }).collect();
        let flat: Vec<V> = mixed.iter().flat_map(|v| match v { V::List(vs) => vs.clone(), v => vec![v.clone()] }).collect();
        let some: Vec<V> = mixed.iter().filter(|v| **v != V::None).cloned().collect();
        // a predicate written with a pattern over the values in range
        let pats: String = (1..=range).map(|i| format!("{i} -> True, ")).collect();
        let is_pos = format!("@fn $x -> @match $x {{ {pats} _ -> False }}");
        let b = |b: bool| if b { "True" } else { "False" }.to_string();
        let cases: Vec<(&str, String, String)> = vec![
            ("sorted", format!("@list::sorted {l}"), V::int_list(&iasc).show()),
            ("sorted-reversed", format!("@list::sorted(reversed=True) {l}"), V::int_list(&idesc).show()),
            ("sorted-key", format!("@list::sorted(key=@fn $p -> $p::0) {pl}"), show_pairs(&asc)),
            ("sorted-key-reversed", format!("@list::sorted(key=@fn $p -> $p::0, reversed=True) {pl}"), show_pairs(&desc)),
            ("sorted-str", format!("@list::sorted {}", sl.expr()), slist(&sasc)),
            ("sorted-str-reversed", format!("@list::sorted(reversed=True) {}", sl.expr()), slist(&sdesc)),
            ("filter", format!("@list::filter({is_pos}) {l}"), V::int_list(&xs.iter().copied().filter(|x| pos(*x)).collect::<Vec<_>>()).show()),
            ("filter-none", format!("@list::filter {}", V::List(mixed.clone()).expr()), V::List(some).show()),
            ("map", format!("@list::map(@fn $x -> [$x, @int::add($x, 1).]) {l}"), V::List(xs.iter().map(|x| V::int_list(&[*x, x + 1])).collect()).show()),
            ("reversed", format!("@list::reversed {l}"), V::int_list(&xs.iter().rev().copied().collect::<Vec<_>>()).show()),
            ("flat", format!("@list::flat {}", V::List(mixed.clone()).expr()), V::List(flat).show()),
            ("enumerate", format!("@list::enumerate {l}"), enumd(0)),
            ("enumerate-from", format!("@list::enumerate(from={from}) {l}"), enumd(from)),
            ("find", format!("@list::find({is_pos}) {l}"), first_pos),
            ("any", format!("@list::any({is_pos}) {l}"), b(xs.iter().any(|x| pos(*x)))),
            ("all", format!("@list::all({is_pos}) {l}"), b(xs.iter().all(|x| pos(*x)))),
            ("len", format!("@list::len {l}"), n.to_string()),
            ("is-empty", format!("@list::is_empty {l}"), b(n == 0)),
            ("contains", format!("@list::contains({}) {l}", range), b(xs.contains(&range))),
            ("contains-list", format!("@list::contains([{}]) {}", range, V::List(xs.iter().map(|x| V::int_list(&[*x])).collect()).expr()), b(xs.contains(&range))),
            ("unchanged", format!("@let(xs={l}) [@let(a=[@xs::sorted., @xs::reversed(), @xs::filter({is_pos}).]) $xs, $xs]").replace("@xs::reversed()", "@list::reversed $xs"), format!("[{l}, {l}]")),
        ];
        for (k, e, want) in cases { run.case(k, &e, n >= 2, || check_eq(&want, &eval_show(&e))); }
        if run.done() { return; }
        if n <= 8 {
            let text: Vec<String> = ss.iter().filter(|s| !s.is_empty()).cloned().collect();
            let sep = ["", ", ", "-", "<b>x</b>"][round % 4];
            let sepe = if sep.starts_with('<') { sep.to_string() } else { template_lit(sep).unwrap() };
            let e = if sep.is_empty() { format!("@list::join {}", sl.expr()) } else { format!("@list::join({sepe}) {}", sl.expr()) };
            let want = if sep.starts_with('<') { ss.join("\u{1}").replace('\u{1}', sep) } else { ss.join(sep) };
            let _ = text;
            run.case("join", &e, n >= 2, || {
                let o = compile(&format!("<span>$x</span>").replace("$x", &format!("@let(j={e}) $j")));
                ensure(o.errors == 0, "no error", o.diags.clone())?;
                check_eq(&format!("<p><span>{want}</span></p>"), &o.html)
            });
            // a callback which fails on one item: the first failing item is reported
            if n >= 2 {
                let bad = xs[run.rng.below(n)];
                let f = format!("@fn $x -> @match $x {{ {bad} -> @raise `boom {bad}`, $y -> True }}");
                let k = xs.iter().position(|x| *x == bad).unwrap();
                let calls = |m: &str| format!("@list::{m}({f}) {l}");
                for m in ["map", "filter", "all"] {
                    let e = calls(m);
                    run.case("callback-error", &e, true, || { let (g, d) = eval_show_diag(&e); check_eq(&"error".to_string(), &g)?; ensure(d.contains(&format!("boom {bad}")), "the callback's error", d) });
                }
                let e = format!("@list::sorted(key={}) {l}", f.replace("-> True", "-> 1"));
                run.case("callback-error", &e, true, || { let (g, d) = eval_show_diag(&e); check_eq(&"error".to_string(), &g)?; ensure(d.contains("boom"), "the callback's error", d) });
                let e = format!("@list::any({}) {l}", f.replace("-> True", "-> False"));
                run.case("callback-error", &e, true, || { let (g, d) = eval_show_diag(&e); check_eq(&"error".to_string(), &g)?; ensure(d.contains("boom"), "the callback's error", d) });
                // which of several failing items is reported: the first
                let fall = "@fn $x -> @raise @str::from $x";
                for m in ["map", "filter", "all", "any", "find"] {
                    let e = format!("@list::{m}({fall}) {}", V::List(xs.iter().map(|x| V::Str(format!("item{x}."))).collect()).expr());
                    run.case("callback-order", &e, true, || { let (g, d) = eval_show_diag(&e); check_eq(&"error".to_string(), &g)?; ensure(d.contains(&format!("item{}.", xs[0])), format!("the error of item{}.", xs[0]), d) });
                }
                let _ = k;
            }
        }
        if run.done() { return; }
    }
    for e in ["@list::sorted [1, `a`]", "@list::sorted [`a`, 1]", "@list::sorted [1, 2, `a`]", "@list::sorted [True]", "@list::sorted [1, .]", "@list::sorted(key=@fn $x -> [$x]) [1, 2]", "@list::sorted [[1]]", "@list::sorted [`a`, `b`, 3, `c`]", "@list::filter($int::negate) [1]", "@list::enumerate(from=9223372036854775807) [1, 2]"] {
        run.case("error", e, true, || check_eq(&"error".to_string(), &eval_show(e)));
    }
    for (e, w) in [("@list::sorted []", "[]"), ("@list::sorted [True, False]", "error"), ("@list::find($list::is_empty) [[1], []]", "[]"), ("@list::enumerate(from=9223372036854775806) [1, 2]", "[[9223372036854775806, 1], [9223372036854775807, 2]]"), ("@list::flat [[[1]], [2]]", "[[1], 2]"), ("@list::any($list::is_empty) []", "False"), ("@list::all($list::is_empty) []", "True")] {
        run.case("edge", e, true, || check_eq(&w.to_string(), &eval_show(e)));
    }
}

// ------------------------------------------------------------------ C14

fn interesting_int(rng: &mut Rng) -> i64 {
    match rng.below(6) {
        0 => rng.below(21) as i64 - 10,
        1 => i64::MAX - rng.below(5) as i64,
        2 => i64::MIN + rng.below(5) as i64,
        3 => { let k = rng.below(63) as u32; (1i64 << k) - rng.below(3) as i64 },
        4 => { let k = rng.below(63) as u32; -(1i64 << k) + rng.below(3) as i64 },
        _ => rng.next() as i64,
    }
}
fn ref_parse(s: &str) -> Option<i64> {
    let (neg, d) = match s.strip_prefix('-') { Some(d) => (true, d), None => (false, s.strip_prefix('+').unwrap_or(s)) };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: i128 = 0;
    for b in d.bytes() { v = (v * 10 + (b - b'0') as i128).min(1 << 100); }
    let v = if neg { -v } else { v };
    i64::try_from(v).ok()
}

pub fn c14(run: &mut Run) {
    run.rule("sums of up to 5 integers near powers of two, zero and the ends of the range; negation; numbering from such integers; literals and parsed strings of up to 22 characters; non-trivial: some integer has more than 2 digits");
    for _ in 0..run.scale(8000, 200000) {
        let n = run.rng.below(6);
        let xs: Vec<i64> = (0..n).map(|_| interesting_int(&mut run.rng)).collect();
        let mut sum: Option<i64> = Some(0);
        for x in &xs { sum = sum.and_then(|s| i64::try_from(s as i128 + *x as i128).ok()); }
        let args = xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
        let e = format!("@int::add({args}).");
        let nt = xs.iter().any(|x| x.abs_diff(0) > 99);
        let want = sum.map_or("error".into(), |s| s.to_string());
        run.case("add", &e, nt, || check_eq(&want, &eval_show(&e)));
        let x = interesting_int(&mut run.rng);
        let e = format!("@int::negate {x}");
        run.case("negate", &e, nt, || check_eq(&i64::try_from(-(x as i128)).map_or("error".into(), |s| s.to_string()), &eval_show(&e)));
        let e = format!("[{x}, @str::from {x}, @int::parse `{x}`, \"{x}\"]").replace(&format!("\"{x}\""), &format!("@let(y={x}) \"$y\""));
        run.case("literal", &e, nt, || check_eq(&format!("[{x}, \"{x}\", {x}, \"{x}\"]"), &eval_show(&e)));
        let m = run.rng.below(4);
        let l: Vec<i64> = vec![7; m];
        let want = if m > 0 && x as i128 + m as i128 - 1 > i64::MAX as i128 { "error".into() } else { V::List((0..m).map(|i| V::int_list(&[x + i as i64, 7])).collect()).show() };
        let e = format!("@list::enumerate(from={x}) {}", V::int_list(&l).show());
        run.case("enumerate", &e, nt, || check_eq(&want, &eval_show(&e)));
        if run.done() { return; }
    }
    for _ in 0..run.scale(10000, 200000) {
        let mut s = match run.rng.below(4) { 0 => "-", 1 => "+", _ => "" }.to_string();
        if run.rng.chance(1, 2) { s += &interesting_int(&mut run.rng).unsigned_abs().to_string(); }
        if run.rng.chance(1, 3) { s.insert_str(s.len().min(1), "000"); }
        s += &random_string(&mut run.rng, &["0", "1", "9", "5", "8", "7"], 4);
        if run.rng.chance(1, 6) { let i = run.rng.below(s.len() + 1); s.insert_str(i, ["-", "+", " ", "_", "x", "٣", ".", "e", "a", "９"][run.rng.below(10)]); }
        let e = format!("@int::parse {}", template_lit(&s).unwrap());
        run.case("parse", &s, s.len() > 2, || check_eq(&ref_parse(&s).map_or("error".into(), |x| x.to_string()), &eval_show(&e)));
        // as a literal
        if s.bytes().enumerate().all(|(i, b)| b.is_ascii_digit() || i == 0 && b == b'-') && s.bytes().any(|b| b.is_ascii_digit()) {
            run.case("number", &s, s.len() > 2, || check_eq(&ref_parse(&s).map_or("error".into(), |x| x.to_string()), &eval_show(&s)));
        }
        if run.done() { return; }
    }
    for (e, want) in [
        ("@int::add(9223372036854775807, 1, -5).", "error"), ("@int::add(9223372036854775807, -5, 1).", "9223372036854775803"), ("@int::add.", "0"),
        ("@int::negate -9223372036854775808", "error"), ("@int::parse ``", "error"), ("@int::parse `-`", "error"), ("@int::parse `--1`", "error"),
        ("@int::parse `99999999999999999999999`", "error"), ("@list::enumerate(from=9223372036854775807) [1]", "[[9223372036854775807, 1]]"),
    ] { run.case("edge", e, true, || check_eq(&want.to_string(), &eval_show(e))); }
    // lists of numbers through other functions do not crash
    for e in ["@code(code_block=True, first_line_no=9223372036854775807) `a\nb`", "@list::slice(-9223372036854775808, 9223372036854775807) [1]", "@list::get(-9223372036854775808) [1]"] {
        run.case("no crash", e, true, || { let _ = eval_show(e); Ok(()) });
    }
}
