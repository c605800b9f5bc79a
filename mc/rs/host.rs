//! Runs the derive of /repo on token streams outside of rustc. The crate `host` is
//! /repo/impl/src/lib.rs itself, built as an ordinary library with --cfg thiserror_verif.
//! Modes: judge (one input per line of stdin), tokens, strings, args (enumerations).
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

fn hash(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub enum Verdict {
    /// rustc's own lexer or parser would reject the input
    NotRust,
    Panic(String),
    Done { out: TokenStream, errors: Vec<String> },
}

fn derive_str(s: &str) -> Verdict {
    match s.parse::<TokenStream>() {
        Ok(ts) => derive(s, ts),
        Err(_) => Verdict::NotRust,
    }
}

fn derive(s: &str, ts: TokenStream) -> Verdict {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    {
        let mut c = CURRENT.lock().unwrap_or_else(|e| e.into_inner());
        c.clear();
        c.push_str(s);
    }
    match catch_unwind(AssertUnwindSafe(|| host::verif_derive(ts))) {
        Err(e) => Verdict::Panic(
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
        Ok(Err(_)) => Verdict::NotRust,
        Ok(Ok(out)) => {
            let mut errors = Vec::new();
            find_errors(&out, &mut errors);
            Verdict::Done { out, errors }
        }
    }
}

/// Messages of the compile_error! items (also inside of `const _: () = { .. };`).
fn find_errors(ts: &TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut after_const = false;
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id == "compile_error" => {
                if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (v.get(i + 1), v.get(i + 2)) {
                    if p.as_char() == '!' {
                        out.push(lit(&g.stream()));
                    }
                }
            }
            TokenTree::Ident(id) if id == "const" => after_const = true,
            TokenTree::Group(g) if after_const && g.delimiter() == Delimiter::Brace => {
                find_errors(&g.stream(), out);
                after_const = false;
            }
            TokenTree::Ident(id) if id == "impl" => after_const = false,
            _ => {}
        }
    }
}

fn lit(ts: &TokenStream) -> String {
    syn::parse2::<syn::LitStr>(ts.clone()).map(|l| l.value()).unwrap_or_else(|_| ts.to_string())
}

#[cfg(feature = "full")]
mod shape {
    use super::*;
    #[derive(Default, Debug)]
    pub struct Shape {
        pub error: u32,
        pub display: u32,
        pub from: u32,
        pub other: u32,
        pub foreign: u32,
    }
    pub fn of(out: &TokenStream, name: &str) -> Result<Shape, String> {
        let f: syn::File = syn::parse2(out.clone()).map_err(|e| e.to_string())?;
        let mut s = Shape::default();
        visit(&f.items, name, &mut s);
        Ok(s)
    }
    fn visit(items: &[syn::Item], name: &str, s: &mut Shape) {
        for i in items {
            match i {
                syn::Item::Impl(i) => {
                    let t = i.trait_.as_ref().and_then(|t| t.1.segments.last()).map(|x| x.ident.to_string());
                    let on = match &*i.self_ty {
                        syn::Type::Path(p) => p.path.segments.last().map_or(false, |x| x.ident == name),
                        _ => false,
                    };
                    if !on {
                        s.foreign += 1;
                    }
                    match t.as_deref() {
                        Some("Error") => s.error += 1,
                        Some("Display") => s.display += 1,
                        Some("From") => s.from += 1,
                        _ => s.other += 1,
                    }
                }
                syn::Item::Const(c) if c.ident == "_" => {
                    if let syn::Expr::Block(b) = &*c.expr {
                        let inner: Vec<syn::Item> = b.block.stmts.iter().filter_map(|s| match s { syn::Stmt::Item(i) => Some(i.clone()), _ => None }).collect();
                        visit(&inner, name, s);
                    }
                }
                syn::Item::Macro(m) if m.mac.path.segments.last().map_or(false, |x| x.ident == "compile_error") => {}
                _ => s.other += 1,
            }
        }
    }
    /// Does a full Rust parser accept this argument list (`, expr` / `, name = expr`, trailing comma)?
    pub fn valid_args(ts: TokenStream) -> bool {
        use syn::ext::IdentExt;
        use syn::parse::{ParseStream, Parser};
        let p = |input: ParseStream| -> syn::Result<()> {
            while !input.is_empty() {
                input.parse::<syn::Token![,]>()?;
                if input.is_empty() {
                    break;
                }
                if input.peek(syn::Ident::peek_any) && input.peek2(syn::Token![=]) && !input.peek2(syn::Token![==]) {
                    input.call(syn::Ident::parse_any)?;
                    input.parse::<syn::Token![=]>()?;
                }
                let e: syn::Expr = input.parse()?;
                if let syn::Expr::Verbatim(_) = e {
                    return Err(input.error("verbatim"));
                }
            }
            Ok(())
        };
        p.parse2(ts).is_ok()
    }
}

/// Problems of one verdict, for C10.
fn problem(v: &Verdict, name: &str) -> Option<String> {
    match v {
        Verdict::NotRust => None,
        Verdict::Panic(m) => Some(format!("panics: {}", m)),
        Verdict::Done { out, errors } => {
            let _ = (out, name);
            #[cfg(feature = "full")]
            {
                let s = match shape::of(out, name) {
                    Ok(s) => s,
                    Err(e) => return Some(format!("the expansion does not parse: {}: {}", e, out)),
                };
                if s.error != 1 {
                    return Some(format!("{} impls of Error{}", s.error, if errors.is_empty() { "" } else { " next to the compile error" }));
                }
                if !errors.is_empty() && s.display != 1 {
                    return Some(format!("rejected, but {} impls of Display", s.display));
                }
                if s.display > 1 {
                    return Some(format!("{} impls of Display", s.display));
                }
                if s.other != 0 || s.foreign != 0 {
                    return Some(format!("items other than impls of Error, Display and From: {:?}", s));
                }
            }
            if errors.iter().any(|e| e.is_empty()) {
                return Some("empty diagnostic".to_owned());
            }
            None
        }
    }
}

struct Run {
    inputs: u64,
    rejected: u64,
    notrust: u64,
    bad: u64,
    kinds: std::collections::HashSet<u64>,
}
impl Run {
    fn new() -> Self {
        Run { inputs: 0, rejected: 0, notrust: 0, bad: 0, kinds: Default::default() }
    }
    fn one(&mut self, s: &str) {
        let v = derive_str(s);
        self.inputs += 1;
        match &v {
            Verdict::NotRust => self.notrust += 1,
            Verdict::Done { out, errors } => {
                if errors.is_empty() {
                    if self.kinds.len() < 2_000_000 {
                        self.kinds.insert(hash(&out.to_string()));
                    }
                } else {
                    self.rejected += 1;
                    self.kinds.insert(hash(&errors.join("|")));
                }
            }
            _ => {}
        }
        if let Some(p) = problem(&v, "S") {
            self.bad += 1;
            if self.bad < 20 {
                println!("BAD\t{}\t{}", s.escape_debug(), p.chars().take(600).collect::<String>().escape_debug());
            }
        }
    }
    fn done(&self) {
        println!("DONE\t{}\t{}\t{}\t{}", self.inputs, self.rejected, self.notrust, self.kinds.len());
    }
}

/// All sequences over `n` letters of length <= max, by odometer; `f` gets the letters.
fn sequences(n: usize, min: usize, max: usize, shard: (u64, u64), mut f: impl FnMut(&[usize])) {
    let mut k = 0u64;
    for len in min..=max {
        let mut v = vec![0usize; len];
        loop {
            if k % shard.1 == shard.0 {
                f(&v);
            }
            k += 1;
            let mut i = len;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                v[i] += 1;
                if v[i] < n {
                    break;
                }
                v[i] = 0;
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if i == usize::MAX || len == 0 {
                break;
            }
        }
    }
}

/// The randomness of hash maps is an input of the exploration, not of chance.
static SEED: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.load(Ordering::Relaxed);
    for i in 0..len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        unsafe { *buf.add(i) = (x >> 56) as u8 }
    }
    len as isize
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Runs `f` in a copy of this process; false: it died.
fn child(f: impl FnOnce()) -> bool {
    unsafe {
        match fork() {
            0 => {
                alarm(60);
                f();
                _exit(0)
            }
            -1 => panic!("fork failed"),
            pid => {
                let mut st = 0;
                while waitpid(pid, &mut st, 0) != pid {}
                st == 0
            }
        }
    }
}

fn show(v: &Verdict) -> String {
    match v {
        Verdict::NotRust => "N".to_owned(),
        Verdict::Panic(m) => format!("P {}", m),
        Verdict::Done { out, .. } => format!("O {}", out),
    }
}

/// history <shard> <file> <depth> <first seed> <seeds>: every sequence of up to `depth` inputs of
/// the file (one per line), each in a process that has expanded exactly the inputs before it:
/// the process is the state, and forking it is the transition. Every expansion must be the one
/// that a process gives which expands nothing else.
fn history(a: &[String]) {
    let sh = shard(&a[0]);
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let inputs: Vec<&str> = text.lines().collect();
    let (depth, first, seeds): (usize, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    // shared: nodes, then one hash per input
    let mem = unsafe { mmap(std::ptr::null_mut(), 8 * (inputs.len() + 2), 3, 0x21, -1, 0) as *mut AtomicU64 };
    assert!(mem as isize != -1);
    let cell = |i: usize| unsafe { &*mem.add(i) };
    let run = |i: usize| match inputs[i].parse::<TokenStream>() {
        Err(_) => Verdict::NotRust,
        Ok(ts) => match catch_unwind(AssertUnwindSafe(|| host::verif_derive(ts))) {
            Err(_) => Verdict::Panic(String::new()),
            Ok(Err(_)) => Verdict::NotRust,
            Ok(Ok(out)) => Verdict::Done { out, errors: Vec::new() },
        },
    };
    SEED.store(first, Ordering::Relaxed);
    for i in 0..inputs.len() {
        let ok = child(|| cell(i + 2).store(hash(&show(&run(i))), Ordering::Relaxed));
        if !ok {
            println!("BAD\t{}\tdies or does not terminate", inputs[i].escape_debug());
            return;
        }
    }
    fn go(path: &mut Vec<usize>, depth: usize, n: usize, visit: &dyn Fn(&[usize])) {
        for i in 0..n {
            path.push(i);
            let ok = child(|| {
                visit(path);
                if depth > 1 {
                    go(path, depth - 1, n, visit);
                }
            });
            if !ok {
                println!("BAD\t{:?}\tdies or does not terminate", path);
            }
            path.pop();
        }
    }
    let visit = |path: &[usize]| {
        let i = *path.last().unwrap();
        let got = show(&run(i));
        cell(0).fetch_add(1, Ordering::Relaxed);
        if hash(&got) != cell(i + 2).load(Ordering::Relaxed) {
            if cell(1).fetch_add(1, Ordering::Relaxed) < 4 {
                let h: Vec<&str> = path.iter().map(|&i| inputs[i]).collect();
                println!("BAD\t{}\tseed {}: expands to {}", h.join("  ;  ").escape_debug(), SEED.load(Ordering::Relaxed), got.chars().take(900).collect::<String>().escape_debug());
                std::io::stdout().flush().unwrap();
            }
        }
    };
    std::io::stdout().flush().unwrap();
    for i in 0..inputs.len() {
        if i as u64 % sh.1 != sh.0 {
            continue;
        }
        for s in first..first + seeds {
            SEED.store(s, Ordering::Relaxed);
            let ok = child(|| {
                visit(&[i]);
                if depth > 1 && s == first {
                    go(&mut vec![i], depth - 1, inputs.len(), &visit);
                }
            });
            if !ok {
                println!("BAD\t{}\tdies or does not terminate", inputs[i].escape_debug());
            }
        }
    }
    // what a hash map yields, so that the caller sees that the seeds decide it
    let mut orders = std::collections::BTreeSet::new();
    for s in first..first + seeds {
        SEED.store(s, Ordering::Relaxed);
        let t = || std::thread::spawn(|| (0..12u8).collect::<std::collections::HashSet<_>>().into_iter().collect::<Vec<_>>()).join().unwrap();
        let (x, y) = (t(), t());
        assert!(x == y, "the hash seed is not controlled");
        orders.insert(x);
    }
    println!("DONE\t{}\t{}\t{}", cell(0).load(Ordering::Relaxed), cell(1).load(Ordering::Relaxed), orders.len());
}

fn count(ts: TokenStream) -> u64 {
    ts.into_iter().map(|t| if let TokenTree::Group(g) = t { 2 + count(g.stream()) } else { 1 }).sum()
}

/// stdin: one input per line. stdout: tokens of the input, tokens of the expansion, milliseconds.
fn size() {
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let n = line.parse::<TokenStream>().map_or(0, count);
        let t = std::time::Instant::now();
        let v = derive_str(&line);
        let ms = t.elapsed().as_millis();
        let (st, k) = match v {
            Verdict::NotRust => ('N', 0),
            Verdict::Panic(_) => ('P', 0),
            Verdict::Done { out, errors } => (if errors.is_empty() { 'O' } else { 'E' }, count(out)),
        };
        println!("{}\t{}\t{}\t{}", st, n, k, ms);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(20));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now == last && now != 0 {
                let c = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
                println!("BAD\t{}\tdoes not terminate within 20 s", c.escape_debug());
                std::io::stdout().flush().unwrap();
                std::process::exit(7);
            }
            last = now;
        }
    });
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(real).unwrap();
    t.join().unwrap();
}

fn real() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "judge" => judge(),
        "tokens" => tokens(&a[2..]),
        "strings" => strings(&a[2..]),
        "args" => args(&a[2..]),
        "lists" => lists(&a[2..]),
        "history" => history(&a[2..]),
        "size" => size(),
        m => panic!("mode {}", m),
    }
}

/// stdin: one input per line. stdout: status, hash of the expansion, shape, messages.
fn judge() {
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let v = derive_str(&line);
        match &v {
            Verdict::NotRust => writeln!(out, "N").unwrap(),
            Verdict::Panic(m) => writeln!(out, "P\t{}", m.escape_debug()).unwrap(),
            Verdict::Done { out: ts, errors } => {
                let text = ts.to_string();
                let st = if errors.is_empty() { "O" } else { "E" };
                #[cfg(not(feature = "full"))]
                let sh = String::new();
                #[cfg(feature = "full")]
                let sh = {
                    // the name of the type: the ident after struct/enum/union at top level
                    let name = line.parse::<TokenStream>().unwrap().into_iter().scan(false, |p, t| {
                        let was = *p;
                        *p = matches!(&t, TokenTree::Ident(i) if i == "struct" || i == "enum" || i == "union");
                        Some(if was { Some(t.to_string()) } else { None })
                    }).flatten().next().unwrap_or_default();
                    match shape::of(ts, &name) {
                        Ok(s) => format!("{},{},{},{},{}", s.error, s.display, s.from, s.other, s.foreign),
                        Err(e) => format!("unparsable {}", e),
                    }
                };
                let sh = sh.replace('\t', " ");
                writeln!(out, "{}\t{:016x}\t{}\t{}", st, hash(&text), sh, errors.join(" | ").escape_debug()).unwrap()
            }
        }
    }
    out.flush().unwrap();
}

fn shard(s: &str) -> (u64, u64) {
    let (a, b) = s.split_once('/').unwrap();
    (a.parse().unwrap(), b.parse().unwrap())
}

/// tokens <shard> <max> <template file>: every line of the file is
/// `template<TAB>alphabet separated by U+001F`; `@@` in the template is replaced by every sequence.
fn tokens(a: &[String]) {
    let sh = shard(&a[0]);
    let mut run = Run::new();
    for line in std::fs::read_to_string(&a[1]).unwrap().lines() {
        let mut p = line.split('\t');
        let (max, template, alpha) = (p.next().unwrap().parse::<usize>().unwrap(), p.next().unwrap(), p.next().unwrap());
        let alpha: Vec<&str> = alpha.split('\u{1f}').collect();
        let (pre, post) = template.split_once("@@").unwrap();
        let mut s = String::new();
        sequences(alpha.len(), 0, max, sh, |v| {
            s.clear();
            s.push_str(pre);
            for &i in v {
                s.push(' ');
                s.push_str(alpha[i]);
            }
            s.push_str(post);
            run.one(&s);
        });
    }
    run.done();
}

/// strings: like tokens, but the letters are characters of a string literal.
fn strings(a: &[String]) {
    let sh = shard(&a[0]);
    let mut run = Run::new();
    for line in std::fs::read_to_string(&a[1]).unwrap().lines() {
        let mut p = line.split('\t');
        let (max, template, alpha) = (p.next().unwrap().parse::<usize>().unwrap(), p.next().unwrap(), p.next().unwrap());
        let alpha: Vec<&str> = alpha.split('\u{1f}').collect();
        let (pre, post) = template.split_once("@@").unwrap();
        let mut s = String::new();
        sequences(alpha.len(), 0, max, sh, |v| {
            let text: String = v.iter().map(|&i| alpha[i]).collect();
            s.clear();
            s.push_str(pre);
            s.push_str(&proc_macro2::Literal::string(&text.replace("\\n", "\n")).to_string());
            s.push_str(post);
            run.one(&s);
        });
    }
    run.done();
}

/// args <shard> <specs> <out> (full build): every argument list of the specs that a full parser
/// accepts goes to <out> as `hash<TAB>list`, the hash being that of its expansions.
/// lists <in> <out>: the same for the lists in <in>, one per line.
const TEMPLATES: [&str; 3] = [
    "# [ error ( \"{x} {y} {0}\" @@ ) ] struct S { x : u8 , y : T , z : u8 }",
    "# [ error ( \"{0} {x}\" @@ ) ] struct S ( u8 , T ) ;",
    "enum S { # [ error ( \"{1} {y}\" @@ ) ] A ( u8 , T ) , # [ error ( \"u\" ) ] B }",
];

fn hash_list(list: &str, show: bool) -> u64 {
    let mut h = DefaultHasher::new();
    for t in TEMPLATES {
        let v = derive_str(&t.replace("@@", list));
        if show {
            match &v {
                Verdict::Done { out, errors } => println!("  {:?} {}", errors, out),
                Verdict::Panic(m) => println!("  panic {:?}", m),
                Verdict::NotRust => println!("  not Rust"),
            }
        }
        match v {
            Verdict::NotRust => "N".hash(&mut h),
            Verdict::Panic(_) => "P".hash(&mut h),
            Verdict::Done { out, .. } => out.to_string().hash(&mut h),
        }
    }
    h.finish()
}

fn lists(a: &[String]) {
    let show = std::env::var_os("MC_SHOW").is_some();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[1]).unwrap());
    let mut n = 0u64;
    for line in std::io::BufReader::new(std::fs::File::open(&a[0]).unwrap()).lines() {
        let line = line.unwrap();
        let (_, list) = line.split_once('\t').unwrap();
        writeln!(out, "{:016x}\t{}", hash_list(list, show), list).unwrap();
        n += 1;
    }
    out.flush().unwrap();
    println!("DONE\t{}", n);
}

#[cfg(not(feature = "full"))]
fn args(_: &[String]) {
    panic!("needs the full parser")
}

#[cfg(feature = "full")]
fn args(a: &[String]) {
    let sh = shard(&a[0]);
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let mut n = 0u64;
    let mut text = String::new();
    let mut go = |list: &str| {
        n += 1;
        if let Ok(toks) = list.parse::<TokenStream>() {
            if shape::valid_args(toks) {
                writeln!(out, "{:016x}\t{}", hash_list(list, false), list).unwrap();
            }
        }
    };
    for line in std::fs::read_to_string(&a[1]).unwrap().lines() {
        // either a literal list, or `max<TAB>template<TAB>alphabet`
        let p: Vec<&str> = line.split('\t').collect();
        if p.len() == 1 {
            if n_mod(sh) {
                go(line);
            }
            continue;
        }
        let alpha: Vec<&str> = p[2].split('\u{1f}').collect();
        let (pre, post) = p[1].split_once("@@").unwrap();
        sequences(alpha.len(), 1, p[0].parse().unwrap(), sh, |v| {
            text.clear();
            text.push_str(pre);
            for &i in v {
                text.push(' ');
                text.push_str(alpha[i]);
            }
            text.push_str(post);
            go(&text);
        });
    }
    drop(go);
    out.flush().unwrap();
    println!("DONE\t{}", n);
}

fn n_mod(sh: (u64, u64)) -> bool {
    use std::cell::Cell;
    thread_local!(static K: Cell<u64> = const { Cell::new(0) });
    K.with(|k| {
        let v = k.get();
        k.set(v + 1);
        v % sh.1 == sh.0
    })
}
