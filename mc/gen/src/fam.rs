//! The grammars that are explored.

use std::sync::Arc;

use mccore::util::{n_strings, nth_string, Radix};
use mccore::{Family, Tier};

use crate::run::{self, Compiled, Grammar};

/// An indexed set of grammars.
pub struct Space {
    pub name: &'static str,
    pub bounds: String,
    pub size: u64,
    pub make: Box<dyn Fn(u64) -> Grammar + Send + Sync>,
}

fn space<F: Fn(u64) -> Grammar + Send + Sync + 'static>(name: &'static str, bounds: &str, size: u64, make: F) -> Space {
    Space { name, bounds: bounds.to_owned(), size, make: Box::new(make) }
}

fn own(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// All terms with up to `n` constructors; `@` and `$` stand for operands.
fn terms(n: usize, leaves: &[&str], unary: &[&str], binary: &[&str]) -> Vec<String> {
    let mut by_size: Vec<Vec<String>> = vec![Vec::new(), own(leaves)];
    for size in 2..=n {
        let mut v = Vec::new();
        for e in &by_size[size - 1] {
            v.extend(unary.iter().map(|u| u.replace('@', e)));
        }
        for l in 1..size - 1 {
            for a in &by_size[l] {
                for b in &by_size[size - 1 - l] {
                    v.extend(binary.iter().map(|f| f.replace('@', a).replace('$', b)));
                }
            }
        }
        by_size.push(v);
    }
    by_size.into_iter().flatten().collect()
}

fn bodies(tier: Tier) -> Space {
    let bodies = terms(
        3,
        &["'a'", "'b'", "x", "n", "<any>", "<eof>", "'a1'", "{}", "<commit>"],
        &["@*", "@?", "<not @>", "{@}", "{@ | 'b'}", "<prev_is x> @", "<enter 'c' @>"],
        &["@ $", "{@ | $}", "<layer @ $>", "<with_skip @ $>", "@ <commit> $", "<inject @ $>"],
    );
    let heads = own(&["rule", "pub rule", "#[cached] rule", "#[replaceable] pub rule", "#[cached] pub rule", "#[replaces] pub rule", "#[cached, replaceable] pub rule"]);
    let inner = own(&["'a'", "'a' y?", "{ 'a' <commit> 'b' }", "'b'? y | n"]);
    let inner: Vec<String> = inner[..tier.pick(3, 4)].to_vec();
    let size = (bodies.len() * heads.len() * inner.len()) as u64;
    space("bodies", "two rules of all kinds, bodies of up to 3 constructors; texts of up to 3 (4) tokens", size, move |i| {
        let mut r = Radix(i);
        let x = &inner[r.take(inner.len())];
        let h = &heads[r.take(heads.len())];
        let b = &bodies[r.take(bodies.len())];
        Grammar::new(
            format!(
                "tokenizer {{ #[skip] ws r\"\\s+\" a 'a' b 'b' n r\"\\d\" #[contextual] kw 'a1' }}\npub rule file {{ {} }}\n{} x {{ {} }}\n#[replaces] pub rule y {{ 'b' }}\n",
                b, h, x
            ),
            &["a", "b", "1"],
            tier.pick(3, 4),
        )
    })
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![Vec::new()];
    }
    let mut res = Vec::new();
    for p in perms(n - 1) {
        for at in 0..n {
            let mut q = p.clone();
            q.insert(at, n - 1);
            res.push(q);
        }
    }
    res
}

fn operators(tier: Tier) -> Space {
    let perms = perms(5);
    let prio = ["(0)", "(1)", "(2)"];
    let opt_prio = ["", "(0)", "(1)", "(2)", "(1000)"];
    let heads = ["rule", "pub rule", "#[cached] rule"];
    let n_heads = tier.pick(1, heads.len());
    let size = (perms.len() * 9 * 25 * n_heads) as u64;
    space("operators", "five kinds of operators in all orders with all priorities; texts of up to 4 (5) tokens", size, move |i| {
        let mut r = Radix(i);
        let p = &perms[r.take(perms.len())];
        let (add, mul) = (prio[r.take(3)], prio[r.take(3)]);
        let (neg, bang) = (opt_prio[r.take(5)], opt_prio[r.take(5)]);
        let head = heads[(r.take(n_heads) + i as usize / 7) % heads.len()];
        let names = ["num", "neg", "bang", "add", "mul"];
        let alts: Vec<&str> = p.iter().map(|&k| names[k]).collect();
        // The order of declarations differs from that of alternatives.
        let decls = [
            "#[atom] pub rule num { n }".to_owned(),
            format!("#[prefix{}] pub rule neg {{ '-' expr }}", neg),
            format!("#[bin{}] pub rule mul {{ expr '*' expr }}", mul),
            format!("#[postfix{}] pub rule bang {{ expr {{'!' | '+' '!'}} }}", bang),
            format!("#[bin{}] pub rule add {{ expr {{'+' | '-'}} expr }}", add),
        ];
        Grammar::new(
            format!(
                "tokenizer {{ n r\"\\d\" plus '+' minus '-' star '*' excl '!' }}\npub rule file {{ expr* }}\n#[pratt] {} expr {{ {} }}\n{}\n",
                head,
                alts.join(" | "),
                decls.join("\n")
            )
            .replace("#[pratt] #[cached]", "#[pratt, cached]"),
            &["1", "+", "*", "-", "!"],
            tier.pick(4, 5),
        )
    })
}

fn parameters(tier: Tier) -> Space {
    let args = own(&["'a'", "'b'", "{ 'a' 'b' }", "<q 'b'>", "z", "<q <q 'a'>>"]);
    let p_body = own(&["x y", "x y?", "<q x> y", "<q y> <q x>", "{ y | x }", "<q { x y }>", "x <p y x>?", "x* y"]);
    let q_body = own(&["x", "x x?", "'b' x", "{ x | 'a' }", "<p x 'b'>", "x?"]);
    let heads = own(&["rule", "pub rule", "#[cached] rule", "#[cached] pub rule"]);
    let size = (args.len() * args.len() * p_body.len() * q_body.len() * heads.len() * heads.len()) as u64;
    space("parameters", "rules with parameters that call each other with the same names; texts of up to 4 tokens", size, move |i| {
        let mut r = Radix(i);
        let (a1, a2) = (&args[r.take(args.len())], &args[r.take(args.len())]);
        let (p, q) = (&p_body[r.take(p_body.len())], &q_body[r.take(q_body.len())]);
        let (hp, hq) = (&heads[r.take(heads.len())], &heads[r.take(heads.len())]);
        Grammar::new(
            format!(
                "tokenizer {{ a 'a' b 'b' x_ 'x' }}\npub rule file {{ <p {} {}>* }}\n{} q(x) {{ {} }}\n{} p(x, y) {{ {} }}\nrule z {{ 'b' 'b' }}",
                a1, a2, hq, q, hp, p
            ),
            &["a", "b"],
            tier.pick(4, 6),
        )
    })
}

fn contexts(tier: Tier) -> Space {
    let bodies = terms(
        tier.pick(3, 4),
        &["'a'", "x", "<is_in 'p'>", "<is_in 'q'>", "y"],
        &["@*", "<enter 'q' @>", "<enter 'p' @>", "<exit 'p' @>", "<not @>"],
        &["@ $", "{@ | $}", "<layer @ $>", "@ <commit> $"],
    );
    let heads = ["rule", "#[cached] rule", "pub rule", "#[cached] pub rule"];
    let inner = ["<is_in 'p'> 'a' | 'b'", "'b' | <is_in 'q'> 'a' y?", "<not <is_in 'p'>> <enter 'p' y> | 'a'"];
    let size = (bodies.len() * heads.len() * inner.len()) as u64;
    space("contexts", "two contexts entered, left and asked about; texts of up to 3 tokens", size, move |i| {
        let mut r = Radix(i);
        let x = inner[r.take(inner.len())];
        let h = heads[r.take(heads.len())];
        let b = &bodies[r.take(bodies.len())];
        Grammar::new(
            format!(
                "tokenizer {{ a 'a' b 'b' }}\npub rule file {{ {} }}\n{} x {{ {} }}\nrule y {{ <is_in 'p'> 'b' | <is_in 'q'> 'a' }}",
                b, h, x
            ),
            &["a", "b"],
            3,
        )
    })
}

/// Texts of literal tokens.
const ODD: [&str; 24] = [
    "+", ".", "\\\\", "\\'", "\"", "\"#", "\"##", "#", "{{", "}}", "{%", "é", "[", "(", "^", "$", "//", "a b", "\\n", "r\"", "<", "\u{301}", "*", "\t",
];

fn literals(_: Tier) -> Space {
    let size = (ODD.len() * ODD.len() * 3) as u64;
    space("literals", "pairs of odd literal tokens, plain and contextual; texts of up to 4 pieces", size, move |i| {
        let mut r = Radix(i);
        let (s, t) = (ODD[r.take(ODD.len())], ODD[r.take(ODD.len())]);
        let kind = ["", "#[contextual] ", "#[skip] "][r.take(3)];
        Grammar::new(
            format!(
                "tokenizer {{ {}one '{}' two r\"{}\" c r\".\" }}\npub rule file {{ {{ '{}' 'x' | two | x }}* }}\npub rule x {{ '{}' | c }} tokenizer",
                kind,
                s,
                regex::escape(t).replace("\"", "\\x22"),
                s,
                s
            )
            .replace("'x' | two", "c? | two")
            .replace(" tokenizer", ""),
            &[s, t, "a", "\n"],
            3,
        )
    })
}

fn tokens(tier: Tier) -> Space {
    let menu = own(&[
        "a 'a'", "ab 'ab'", "as_ r\"a+\"", "abs r\"[ab]+\"", "w r\"\\w\"", "#[contextual] cab 'ab'", "#[contextual] ca 'a'", "#[skip] sb r\"b\"",
        "dot '.'", "#[skip] sa 'aba'", "any_ r\"(?s).\"", "alt r\"a|ab\"", "lit r\"\"", "#[contextual, skip] cb 'b'",
    ]);
    let n = menu.len();
    let k = tier.pick(3, 4);
    let mut size = 1u64;
    for j in 0..k {
        size *= (n - j) as u64;
    }
    space("tokens", "all sequences of 3 (4) different declarations of tokens; texts of up to 4 characters", size, move |i| {
        let mut r = Radix(i);
        let mut rest = menu.clone();
        let mut chosen = Vec::new();
        for _ in 0..k {
            let j = r.take(rest.len());
            chosen.push(rest.remove(j));
        }
        // Contextual tokens are tried before anything else is taken.
        let refs: Vec<String> = chosen
            .iter()
            .map(|c| {
                let words: Vec<&str> = c.trim_start_matches(|x: char| x != ']').trim_start_matches("] ").split(' ').collect();
                let words: Vec<&str> = if c.starts_with('#') { words } else { c.split(' ').collect() };
                if words[1].starts_with('\'') { words[1].to_owned() } else { words[0].to_owned() }
            })
            .collect();
        let contextual: Vec<&str> =
            chosen.iter().zip(&refs).filter(|(c, _)| c.starts_with("#[contextual")).map(|(_, r)| r.as_str()).collect();
        let mut alts: Vec<String> = contextual.iter().map(|c| c.to_string()).collect();
        alts.push(format!("<prev_is x> {}", refs[0]));
        alts.push("x".to_owned());
        alts.push("<any>".to_owned());
        Grammar::new(
            format!("tokenizer {{\n  {}\n}}\npub rule file {{ {{ {} }}* }}\npub rule x {{ {} }}", chosen.join("\n  "), alts.join(" | "), refs[1]),
            &["a", "b", ".", "é"],
            tier.pick(4, 4),
        )
    })
}

fn attributes(_: Tier) -> Space {
    let attrs = own(&[
        "", "cached", "replaceable", "replaces", "pratt", "atom", "prefix", "postfix", "bin", "bin(1)", "bin(x)", "prefix(2)", "type(x)", "type(a)",
        "type(file)", "type(X)", "type(nope)", "type", "cached(1)", "unknown", "atom(1)",
    ]);
    let n = attrs.len();
    let bodies = own(&["x '+' x", "x", "x '+'", "'-' x", "y | z", "x | y", "'a'", "", "<commit>", "'a' <commit> y", "e '+' e", "e"]);
    let size = (n * n * 2 * 3 * bodies.len()) as u64;
    space("attributes", "all pairs of attributes on three rules, public or not; texts of up to 3 tokens", size, move |i| {
        let mut r = Radix(i);
        let b = bodies[r.take(bodies.len())].clone();
        let at = r.take(3);
        let p = ["", "pub "][r.take(2)];
        let mut a: Vec<String> = vec![attrs[r.take(n)].clone(), attrs[r.take(n)].clone()];
        a.retain(|s| !s.is_empty());
        let a = if a.is_empty() { String::new() } else { format!("#[{}] ", a.join(", ")) };
        let mut rules = own(&["pub rule file { {e x? y? | x}* }", "#[pratt] rule e { x | y }", "#[atom] pub rule x { 'a' }", "#[postfix] pub rule y { e '+' }"]);
        rules[at] = format!("{}{}rule {} {{ {} }}", a, p, ["file", "e", "x"][at], b);
        rules.push("pub rule z { 'b' }".to_owned());
        Grammar::new(format!("tokenizer {{ a 'a' b 'b' plus '+' minus '-' }}\n{}", rules.join("\n")), &["a", "b", "+", "-"], 3)
    })
}

/// Grammars for mutations, as tokens.
fn bases() -> Vec<(&'static str, Vec<&'static str>)> {
    vec![
        (
            "tokenizer { #[ skip ] ws r\"\\s\" n r\"\\d\" plus '+' #[ contextual ] kw 'a' w r\"\\w\" } pub rule file { e * } #[ pratt ] rule e { num | add | neg } #[ atom ] pub rule num { n } #[ bin ( 1 ) ] pub rule add { e '+' e } #[ prefix ] pub rule neg { '+' e }",
            vec!["1", "+", "a"],
        ),
        (
            "tokenizer { a 'a' b 'b' } pub rule file { < list x { 'a' | 'b' } > < eof > } #[ cached ] rule list ( el , sep ) { el < commit > { sep < list el sep > } ? } #[ replaceable ] pub rule x { 'a' y ? } #[ replaces ] pub rule y { 'b' }",
            vec!["a", "b"],
        ),
        (
            "tokenizer { a 'a' b 'b' } pub rule file { < enter 'c' x > < with_skip 'a' x > * < layer { < not 'b' > < any > } x > } pub rule x { < is_in 'c' > 'a' | < exit 'c' 'b' > | < prev_is x > y } #[ type ( x ) ] pub rule y { < inject x x > }",
            vec!["a", "b"],
        ),
        (
            "tokenizer { a 'a' b 'b' } pub rule file { x * } pub rule x { 'a' | y } pub rule y { 'b' } ast { trait t { s a ? . text } node file : t { xs x * o z * k a } node x : t { y y ? yy y b b ? } node y { } class z { x y } }",
            vec!["a", "b"],
        ),
        ("tokenizer { a 'a' } verbatim r\"//f\" test r\"x\" pub rule file { 'a' } test r\"y\"", vec!["a"]),
    ]
}

fn mutations(_: Tier) -> Vec<Space> {
    let mut res = Vec::new();
    for (k, (base, pieces)) in bases().into_iter().enumerate() {
        let toks: Vec<String> = base.split(' ').map(|s| s.to_owned()).collect();
        let mut menu: Vec<String> = toks.clone();
        menu.extend(own(&["foo", "'x'", "1", "9999999999", "commit", "any", "rule", "pub", "type", "text", "r\"(\"", "''", "r\"\"", "Foo", "node"]));
        menu.sort();
        menu.dedup();
        let (n, m) = (toks.len(), menu.len());
        // Nothing, deletion, duplication, swap, replacement, insertion.
        let size = (1 + n + n + n + n * m + n * m) as u64;
        let name = ["changed-operators", "changed-lists", "changed-contexts", "changed-views", "changed-blocks"][k];
        res.push(space(name, "every change of a token of a grammar; texts of up to 3 tokens", size, move |i| {
            let mut t = toks.clone();
            let i = i as usize;
            if i == 0 {
            } else if i < 1 + n {
                t.remove(i - 1);
            } else if i < 1 + 2 * n {
                let at = i - 1 - n;
                let x = t[at].clone();
                t.insert(at, x);
            } else if i < 1 + 3 * n {
                let at = i - 1 - 2 * n;
                if at + 1 < n {
                    t.swap(at, at + 1);
                }
            } else if i < 1 + 3 * n + n * m {
                let j = i - 1 - 3 * n;
                t[j / m] = menu[j % m].clone();
            } else {
                let j = i - 1 - 3 * n - n * m;
                t.insert(j / m, menu[j % m].clone());
            }
            Grammar::new(t.join(" "), &pieces, 3)
        }));
    }
    res
}

fn orders(tier: Tier) -> Space {
    let rules = own(&[
        "rule list(el) { el { ',' <list el> }? }",
        "#[pratt] rule e { num | add }",
        "#[atom] pub rule num { n }",
        "#[bin(1)] pub rule add { e '+' e }",
        "pub rule item { <list e> ';'? y }",
        "rule y { <prev_is num> 'b' | ';' | <not <any>> }",
    ]);
    let perms = perms(rules.len());
    let size = perms.len() as u64 * tier.pick(16, 64);
    space("orders", "rules in every order, with and without caching; texts of up to 4 tokens", size, move |i| {
        let mut r = Radix(i);
        let p = &perms[r.take(perms.len())];
        let c = r.0;
        let mut text = "tokenizer { #[skip] ws ' ' n r\"\\d\" plus '+' comma ',' semi ';' b 'b' }\npub rule file { item* }\n".to_owned();
        for (k, &j) in p.iter().enumerate() {
            // Every rule is cached in some of the variants.
            let cached = c >> ((k + j) % 6) & 1 == 1;
            let rule = &rules[j];
            if !cached {
                text += rule;
            } else if rule.starts_with("#[") {
                text += &rule.replacen("#[", "#[cached, ", 1);
            } else {
                text += &format!("#[cached] {}", rule);
            }
            text.push('\n');
        }
        Grammar::new(text, &["1", "+", ",", ";", "b"], 4)
    })
}

fn limits(_: Tier) -> Space {
    space("limits", "up to 40 contexts, parameters, tokens, alternatives", 160, move |i| {
        let n = i % 40;
        let list = |f: &dyn Fn(u64) -> String, sep: &str| (0..n).map(|k| f(k)).collect::<Vec<_>>().join(sep);
        let text = match i / 40 {
            0 => format!(
                "tokenizer {{ a 'a' b 'b' }}\npub rule file {{ {} }}\nrule x {{ {} | 'b' }}",
                list(&|k| format!("<enter 'c{}' x>", k), " "),
                list(&|k| format!("<is_in 'c{}'> 'a'", k), " | ")
            ),
            1 => format!(
                "tokenizer {{ a 'a' b 'b' }}\npub rule file {{ {} }}\n{}",
                list(&|k| format!("<x{} {}>", k, if k % 2 == 0 { "'a'" } else { "'b'" }), " "),
                list(&|k| format!("rule x{}(p) {{ p? }}", k), "\n")
            ),
            2 => format!(
                "tokenizer {{ {} a 'a' b 'b' }}\npub rule file {{ {{'a' | 'b' | {} 'a'}}* }}",
                list(&|k| format!("t{} 'a{}'", k, "b".repeat(k as usize)), " "),
                list(&|k| format!("'a{}'", "b".repeat(k as usize)), " | ") + if n == 0 { "" } else { " |" }
            ),
            _ => format!(
                "tokenizer {{ a 'a' b 'b' }}\npub rule file {{ {{ {} 'a' | <any> }}* }}\n{}",
                list(&|k| format!("r{}", k), " | ") + if n == 0 { "" } else { " |" },
                list(&|k| format!("pub rule r{} {{ {} 'a' }}", k, "'b' ".repeat(k as usize % 4)), "\n")
            ),
        };
        Grammar::new(text, &["a", "b"], 4)
    })
}

/// Short sequences of tokens of the grammar language inside a rule.
fn sequences(tier: Tier) -> Space {
    let pieces = ["'a'", "x", "{", "}", "|", "?", "*", "<", ">", "not", "commit", "any", "p", "layer", "<eof>", "'c'", "is_in"];
    let k = pieces.len() as u64;
    let n = tier.pick(4, 5);
    space("sequences", "every sequence of up to 4 (5) pieces as the body of a rule", n_strings(k, n), move |i| {
        let body: Vec<&str> = nth_string(k, i).into_iter().map(|j| pieces[j]).collect();
        Grammar::new(
            format!("tokenizer {{ a 'a' b 'b' }}\npub rule file {{ {} }}\npub rule x {{ 'b' }}\nrule p(q) {{ q q }}", body.join(" ")),
            &["a", "b"],
            2,
        )
    })
}

fn views(_: Tier) -> Space {
    let methods = own(&[
        "m b", "m b?", "m b*", "m b.text", "m b?.text", "m x", "m x?", "m x*", "m c", "m c?", "m c*", "m x.text", "m k.text", "m k?", "m nope", "m file*",
        "m b.foo", "m c.text", "m c?.text", "m x?.text",
    ]);
    let n = methods.len();
    let wheres = 4;
    let size = (n * n * wheres) as u64;
    space("views", "all pairs of accessors on nodes and traits; texts of up to 4 tokens", size, move |i| {
        let mut r = Radix(i);
        let (a, b) = (methods[r.take(n)].clone(), methods[r.take(n)].replacen('m', "other", 1));
        let w = r.take(wheres);
        let put = |j: usize| match (w, j) {
            (0, 0) | (1, 1) | (2, 2) => format!("{} {}", a, b),
            (3, 0) => a.clone(),
            (3, 2) => b.clone(),
            _ => String::new(),
        };
        Grammar::new(
            format!(
                "tokenizer {{ #[skip] ws r\"\\s\" b 'b' d 'd' #[contextual] k 'a' w r\"\\w\" }}\npub rule file {{ {{x | y_z | <any>}}* }}\npub rule x {{ 'b' y_z? {{x | <eof>}} }}\npub rule y_z {{ 'a' 'd'? }}\nast {{\n  trait t {{ {} }}\n  node file: t {{ {} }}\n  node x: t {{ {} }}\n  node y_z: t {{ }}\n  class c {{ y_z x }}\n}}",
                put(2), put(0), put(1)
            ),
            &["b", "a", "d", " "],
            3,
        )
    })
}

/// Names of everything that becomes a name in the generated code.
const NAMES: [&str; 50] = [
    "foo", "type", "fn", "self", "Self", "super", "lang", "LANG", "language", "option", "box", "default", "some", "none", "error", "ast_node",
    "node", "text", "wrap", "impl", "rt", "match", "_", "_x", "x_", "a__b", "x1", "Foo", "fooBar", "vec", "std", "string", "async", "dyn", "crate",
    "lexer", "builder", "metrics", "edit", "new_text", "parser_definition", "static", "box_", "hash", "clone", "debug", "result", "é", "sync", "send",
];

fn names(_: Tier) -> Space {
    let n = NAMES.len();
    space("names", "every name for tokens, rules, parameters, contexts, views and methods", (n * 9) as u64, move |i| {
        let name = NAMES[i as usize % n];
        let w = i as usize / n;
        let at = |k: usize, other: &str| if w == k { name.to_owned() } else { other.to_owned() };
        let file = at(0, "file");
        let rule = at(1, "x");
        let class = at(6, "cls");
        let tr = at(7, "tr");
        Grammar::new(
            format!(
                "tokenizer {{ {tok} 'a' {re} r\"b\" }}\npub rule {file} {{ {rule}* <p {{'a'}}>? }}\npub rule {rule} {{ {re} }}\nrule p({par}) {{ {par} {par}? <enter '{ctx}' {{ <is_in '{ctx}'> <any> }}>? }}\nast {{\n  trait {tr} {{ }}\n  node {file}: {tr} {{ {method} {tok}? {all} {class}* }}\n  node {rule}: {tr} {{ }}\n  class {class} {{ {rule} }}\n}}",
                tok = at(2, "tok"), re = at(3, "re"), file = file, rule = rule, par = at(4, "par"), ctx = at(5, "ctx"),
                method = at(8, "m"), all = "every", class = class, tr = tr
            ),
            &["a", "b"],
            3,
        )
    })
}

fn spaces(tier: Tier) -> Vec<Space> {
    let mut v = vec![
        bodies(tier),
        operators(tier),
        parameters(tier),
        contexts(tier),
        literals(tier),
        tokens(tier),
        attributes(tier),
        orders(tier),
        limits(tier),
        sequences(tier),
        views(tier),
        names(tier),
    ];
    v.extend(mutations(tier));
    v
}

/// Grammars whose parsers are compiled.
pub fn chosen() -> Vec<Grammar> {
    let mut res = Vec::new();
    for s in spaces(Tier::Quick) {
        let n = match s.name {
            "views" => 40,
            "names" => s.size,
            "limits" => 8,
            "literals" => 30,
            _ => 14,
        };
        // Evenly spread, with a stride that meets every value of every digit.
        let stride = (s.size / n).max(1) | 1;
        let mut i = 0;
        let mut k = 0;
        while i < s.size && k < n {
            let g = (s.make)(i);
            // What else it is may not be Rust.
            if !g.text.contains("verbatim") || g.text.contains("verbatim r\"//f\"") {
                res.push(g);
            }
            i += stride;
            k += 1;
        }
    }
    res.extend(special());
    res
}

/// Grammars that use what only compiled parsers have.
fn special() -> Vec<Grammar> {
    let mut res = Vec::new();
    for verbatim in &[
        "fn until_b(s: &str) -> Option<usize> { s.find('b').map(|i| i + 1) }",
        "// nothing here\nfn until_b(s: &str) -> Option<usize> { s.find('b').map(|i| i + 1) }\nconst UNRELATED: &str = \"#\";",
    ] {
        for order in 0..2 {
            let (t1, t2) = ("long r\"ac*\" 'until_b'", "b 'b' #[skip] ws r\" +\"");
            let toks = if order == 0 { format!("{} {}", t1, t2) } else { format!("{} {}", t2, t1) };
            res.push(Grammar::new(
                format!(
                    "tokenizer {{ {} }}\npub rule file {{ {{long | x}}* }} pub rule x {{ 'b' <commit> long }}\nverbatim r##\"\n{}\n\"##\nast {{ node x {{ s long?.text }} }}",
                    toks, verbatim
                ),
                &["a", "b", "c", " "],
                4,
            ));
        }
    }
    res
}

pub fn families(tier: Tier, compiled: Vec<Option<Compiled>>) -> Vec<Family> {
    let mut res: Vec<Family> = Vec::new();
    let chosen = Arc::new(chosen());
    assert_eq!(chosen.len(), compiled.len());
    res.push(Family::new("compiled", "parsers compiled by the Rust compiler, with their views", chosen.len() as u64, move |i, ctx| {
        run::explore_compiled(&chosen[i as usize], compiled[i as usize], ctx)
    }));
    res.extend(interpreted(tier));
    res
}

pub fn interpreted(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    for s in spaces(tier) {
        let make = s.make;
        res.push(Family::new(s.name, s.bounds, s.size, move |i, ctx| run::explore(&make(i), ctx)));
    }
    res.extend(crate::shipped::families(tier));
    res
}
