//! Small hostile programs over the safe API, to be run under Miri.
//! san MODE SEED   (MODE: rules values text api threads first-use)
use aoc_parse::{parser, prelude::*, ParseContext, ParseError, ParseIter, Reported};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Barrier};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

thread_local! {
    static MADE: Cell<usize> = const { Cell::new(0) };
    static DROPPED: Cell<usize> = const { Cell::new(0) };
}
/// counts creations and drops; heap-allocated so that Miri sees reuse after free
#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Tok(Box<usize>);
fn tok(n: usize) -> Tok {
    MADE.with(|m| m.set(m.get() + 1));
    Tok(Box::new(n))
}
impl Drop for Tok {
    fn drop(&mut self) {
        DROPPED.with(|m| m.set(m.get() + 1));
    }
}
fn balanced(at: &str) {
    let (m, d) = (MADE.with(|m| m.get()), DROPPED.with(|m| m.get()));
    assert_eq!(m, d, "{at}: values created and dropped");
}

#[derive(Debug)]
enum T {
    Leaf(Tok),
    Node(Vec<T>),
}
fn count(t: &T) -> usize {
    match t {
        T::Leaf(x) => *x.0 % 2,
        T::Node(v) => v.iter().map(count).sum::<usize>() + 1,
    }
}

fn tree() -> impl Parser<Output = T> {
    parser!(
        rule t: T = {
            d:digit => T::Leaf(tok(d)),
            "[" v:list "]" => T::Node(v),
            "(" a:t b:t ")" => T::Node(vec![a, b]),
            "(" a:t ")" => T::Node(vec![a]),
        };
        rule list: Vec<T> = repeat_sep(t, ",");
        t
    )
}

fn rules(r: &mut Rng) {
    let texts = ["[1,[2,[3,[]]],(4(5))]", "[[[[[]]]]]", "(1(2(3(4))))", "[1,2", "(((((1)))))x", "", "]", "[é]", "[1,\u{1f602}]", "9"];
    let p = tree();
    let mut kept = vec![];
    for _ in 0..4 {
        kept.push(p.parse(r.pick(&texts)));
    }
    // moved: stack to heap to vector and back
    let b = Box::new(p);
    kept.push(b.parse(r.pick(&texts)));
    let mut v = vec![*b, tree()];
    v.reserve(30);
    kept.push(v[0].parse(r.pick(&texts)));
    v.swap(0, 1);
    kept.push(v[0].parse(r.pick(&texts)));
    kept.push(v[1].parse(r.pick(&texts)));
    let last = v.remove(1);
    drop(v);
    kept.push(last.parse(r.pick(&texts)));
    // a parser holding a rule set holding a parser
    let outer = {
        let inner = last;
        parser!(rule pair: (T, T) = "<" t:inner ";" u:digit ">" => (t, T::Leaf(tok(u))); line(pair)* any_char?)
    };
    let o = outer.parse("<[1,2];3>\n<(4);5>\n!");
    kept.push(tree().parse("[0]"));
    drop(outer);
    assert_eq!(o.as_ref().unwrap().0.len(), 2);
    // dropped in a random order after every parser is gone
    while !kept.is_empty() {
        let i = r.below(kept.len());
        match kept.swap_remove(i) {
            Ok(t) => {
                let _ = count(&t);
            }
            Err(e) => {
                let f = e.clone();
                drop(e);
                let _ = format!("{f} {f:?}");
            }
        }
    }
    drop(o);
    balanced("rules");
}

fn values(r: &mut Rng) {
    // eight heap values side by side, in both nestings
    let d = || parser!(x:digit => tok(x));
    let (a, b, c, e, f, g, h, i) = (d(), d(), d(), d(), d(), d(), d(), d());
    let p = parser!(a b c e f g h i);
    let v = p.parse("12345678").unwrap();
    assert_eq!(*v.7 .0, 8);
    drop(v);
    let _ = p.parse("1234567");
    let _ = p.parse("123456789");
    drop(p);
    let (a, b, c, e) = (d(), d(), d(), d());
    let p = parser!(w:a x:b y:c z:e => (z, y, x, w));
    let v = p.parse("1234").unwrap();
    assert_eq!((*v.0 .0, *v.3 .0), (4, 1));
    drop((p, v));
    // giving back: values are only made for what is kept
    let n = d();
    let p = parser!(n* digit digit);
    let k = r.below(6);
    let t = "1".repeat(k);
    assert_eq!(p.parse(&t).is_ok(), k >= 2);
    let q = {
        let n = d();
        parser!((n alpha)* (digit alpha)? digit*)
    };
    for t in ["", "1a", "1a2b3", "1a2b3c", "1a23", "a"] {
        let _ = q.parse(t);
    }
    // collections
    let n = d();
    let n = &n;
    let h: HashSet<Tok> = parser!(hash_set(n*)).parse("1231").unwrap();
    let b: BTreeSet<Tok> = parser!(btree_set(n+)).parse("1231").unwrap();
    let q: VecDeque<Tok> = parser!(vec_deque(n*)).parse("1231").unwrap();
    let m: HashMap<Tok, Tok> = parser!(hash_map((n n)*)).parse("121324").unwrap();
    let o: BTreeMap<Tok, Tok> = parser!(btree_map((n n)*)).parse("121324").unwrap();
    assert_eq!((h.len(), b.len(), q.len(), m.len(), o.len()), (3, 3, 4, 2, 2));
    drop((h, b, q, m, o));
    // alternation of heap values, option, nested
    let p = parser!({x:n "!" => Some(x), x:n "?" => { drop(x); None }, "" => None}*);
    let _ = p.parse(r.pick(&["1!2?3!", "1!2", "", "!!"]));
    // a conversion that borrows from its surroundings and is not 'static
    let log = RefCell::new(vec![]);
    {
        let log = &log;
        let p = parser!(lines(x:string(any_char+) => { log.borrow_mut().push(x.clone()); x }));
        let _ = p.parse("ab\né\n");
        let _ = p.parse("ab");
    }
    assert_eq!(log.borrow().len(), 3);
    // reference-counted values
    let rc = Rc::new(5);
    {
        let rc = &rc;
        let p = parser!(("a" => rc.clone())* {"b", "c"}?);
        let v = p.parse("aaab").unwrap();
        assert_eq!(Rc::strong_count(rc), 1 + v.0.len());
        let _ = p.parse("aax");
    }
    assert_eq!(Rc::strong_count(&rc), 1);
    // a conversion that panics, in the middle of a list
    let p = parser!((x:n => if *x.0 == 3 { panic!("three") } else { x })*);
    for t in ["12345", "124", "3"] {
        let _ = catch_unwind(AssertUnwindSafe(|| p.parse(t).map(drop)));
    }
    // parsing inside a conversion, with the same statics and with an inner parser
    let inner = tree();
    let inner = &inner;
    let p = parser!(lines(s:string(any_char*) => inner.parse(&s).map(|t| count(&t)).unwrap_or(99)));
    let _ = p.parse("[1,2]\n(3)\nx\n");
    balanced("values");
}

fn text(r: &mut Rng) {
    let units = ["a", "é", "\u{1f602}", "\n", "\u{10ffff}", "\0", "1", "ß", "\u{301}"];
    let mut s = String::new();
    for _ in 0..r.below(9) {
        s.push_str(r.pick(&units));
    }
    let s = s.into_boxed_str(); // exact allocation: reads past the end are seen
    macro_rules! go { ($([$($p:tt)*])*) => { $( {
        let p = parser!($($p)*);
        if let Err(e) = p.parse(&s) {
            let _ = (e.to_string(), format!("{e:?}"));
        }
        for (i, _) in s.char_indices().take(3) {
            let _ = p.parse(&s[i..]);
            let _ = p.parse(&s[..i]);
        }
    } )* } }
    go!([any_char*] [string(any_char*) "\n"] [lines(any_char*)] [lines(string(any_char+))] [sections(lines(any_char*))] [section(any_char*) any_char*]
        [line(alpha*) line(any_char?)] [char_of("aé\u{1f602}\n")*] [alnum* upper* lower*] ["é" any_char*] ['\u{1f602}' any_char*] [repeat_sep(any_char, 'é')]
        [repeat_sep(string(alpha*), "\n")] [{"aé", "a", "é"}* any_char?] [(any_char any_char)* alpha?] [string({"\u{1f602}\u{1f602}" => 'x', any_char}+)]
        [digit* digit_bin* digit_hex* any_char*]);
    // the text goes away before the results do
    let (ok, err) = {
        let t = String::from("aé\nb");
        (parser!(lines(string(any_char*))).parse(&t), parser!(lines(upper)).parse(&t))
    };
    assert_eq!(ok.unwrap(), ["aé", "b"]);
    let e: ParseError = err.unwrap_err();
    let b: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
    assert!(!b.to_string().is_empty());
    let r: Result<String, Box<dyn std::error::Error>> = aoc_parse("x\r", parser!(string(any_char+)));
    assert_eq!(r.unwrap(), "x\r\n");
}

/// A user-written parser over the public traits: offers each prefix of "ab" runs, longest first.
#[derive(Clone, Copy)]
struct Runs;
struct RunsIter<'p> {
    ends: Vec<usize>,
    text: &'p str,
    tok: Tok,
}
impl Parser for Runs {
    type Output = String;
    type RawOutput = (String,);
    type Iter<'p> = RunsIter<'p> where Self: 'p;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, at: usize) -> Result<RunsIter<'p>, Reported> {
        let text = &cx.source()[at..];
        let n = text.bytes().take_while(|b| *b == b'a' || *b == b'b').count();
        if n == 0 {
            return Err(cx.error_expected(at, "a run"));
        }
        Ok(RunsIter { ends: (1..=n).map(|k| at + k).collect(), text: &text[..n], tok: tok(n) })
    }
}
impl<'p> ParseIter<'p> for RunsIter<'p> {
    type RawOutput = (String,);
    fn match_end(&self) -> usize {
        *self.ends.last().unwrap()
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        if self.ends.len() <= 1 {
            return Err(cx.error_expected(self.ends[0], "a shorter run"));
        }
        self.ends.pop();
        Ok(())
    }
    fn convert(&self) -> (String,) {
        let _ = self.tok.0;
        (self.text[..self.ends.len()].to_string(),)
    }
}

fn api(r: &mut Rng) {
    let text = r.pick(&["abab", "aab;ab", "b", "", "abé", "ab\nba\n\na", "aaa,bb,ab"]).to_string();
    let q = Runs;
    let n = q;
    macro_rules! go { ($([$($p:tt)*])*) => { $( { let p = parser!($($p)*); if let Err(e) = p.parse(&text) { let _ = e.to_string(); } } )* } }
    go!([Runs] [Runs Runs] [n "b"] [n* alpha] [(n n)* any_char*] [repeat_sep(n, ",")] [repeat_sep(n, n)] [lines(n)] [sections(lines(n* "a"?))]
        [string(n+ "b")] [{n "a" => 1, n "b" => 2, n => 3}] [n? n? n? n?] [rule z: String = {x:n y:z => x + &y, x:n => x}; z] [section(n any_char*) n]
        [line(x:n y:n => (y, x))]);
    balanced("api");
}

/// A user-written parser that breaks the rules in safe code: ends before its start, beyond the text,
/// inside a character, or different each time it is asked. Panics and wrong values are fine; UB is not.
#[derive(Clone, Copy)]
struct Liar(&'static Cell<u64>);
struct LiarIter {
    at: usize,
    len: usize,
    r: &'static Cell<u64>,
    left: usize,
}
impl LiarIter {
    fn roll(&self) -> u64 {
        let mut r = Rng(self.r.get());
        let x = r.next();
        self.r.set(x);
        x
    }
}
impl Parser for Liar {
    type Output = usize;
    type RawOutput = (usize,);
    type Iter<'p> = LiarIter;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, at: usize) -> Result<LiarIter, Reported> {
        let it = LiarIter { at, len: cx.source().len(), r: self.0, left: 3 };
        match it.roll() % 8 {
            0 => Err(Reported),                                            // fails without saying why
            1 => Err(cx.error_expected(it.roll() as usize % (it.len + 3), "a lie")), // says so about some other place
            2 => Err(cx.error_from_str_failed(at, it.roll() as usize % (it.len + 3), "T", "no".into())),
            3 => {
                let _ = cx.error_extra(at + 1);
                Ok(it)
            }
            _ => Ok(it),
        }
    }
}
impl<'p> ParseIter<'p> for LiarIter {
    type RawOutput = (usize,);
    fn match_end(&self) -> usize {
        match self.roll() % 7 {
            0 => self.at.saturating_sub(1),
            1 => self.len + 1,
            2 => usize::MAX,
            3 => self.at + 1,
            4 => self.roll() as usize % (self.len + 2),
            _ => self.at,
        }
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        if self.left == 0 {
            return if self.roll() % 2 == 0 { Err(Reported) } else { Err(cx.error_expected(self.at, "another lie")) };
        }
        self.left -= 1;
        Ok(())
    }
    fn convert(&self) -> (usize,) {
        (self.match_end(),)
    }
}

fn hostile(r: &mut Rng) {
    thread_local! { static STATE: &'static Cell<u64> = Box::leak(Box::new(Cell::new(0))); }
    let state = STATE.with(|s| *s);
    state.set(r.next());
    let liar = Liar(state);
    let texts = ["", "é", "aé\n", "1\n\u{1f602}\n\na", "\n\n\n", "ab1", "\u{1f602}\u{1f602}\u{1f602}"];
    macro_rules! go { ($([$($p:tt)*])*) => { $( {
        let p = parser!($($p)*);
        for _ in 0..2 {
            let t = String::from(*r.pick(&texts)).into_boxed_str();
            let _ = catch_unwind(AssertUnwindSafe(|| match p.parse(&t) {
                Ok(v) => drop(v),
                Err(e) => drop((e.to_string(), format!("{e:?}"), e.clone())),
            }));
        }
    } )* } }
    go!([liar] [liar alpha] [liar "é"] [liar any_char*] [liar liar liar] [string(liar)] [string(liar liar) alpha?] [line(liar)] [lines(liar)] [section(liar)] [sections(lines(liar any_char?))]
        [liar line(alpha*)] [liar section(any_char*)] [liar char_of("é\u{1f602}")] [liar digit digit_hex] [liar bool] [{ liar => 1, alpha => 2 } any_char] [liar? any_char]
        [lines(string(liar alpha*) liar)] [string(string(liar) string(liar))] [rule a: usize = { "é" x:a => x + 1, x:liar => x }; a any_char?]
        [x:liar y:liar => x.wrapping_add(y)] [liar 'é'] [liar "\n" liar] [liar string(any_char)]);
}

fn first_use(r: &mut Rng, threads: usize) {
    // the first uses of the same and of different global patterns coincide
    let barrier = Arc::new(Barrier::new(threads));
    let which = r.below(9);
    std::thread::scope(|s| {
        for k in 0..threads {
            let barrier = barrier.clone();
            s.spawn(move || {
                barrier.wait();
                match which {
                    0 => assert_eq!(parser!(u8).parse("7").unwrap(), 7),
                    1 => assert_eq!(parser!(i16).parse("-7").unwrap(), -7),
                    2 => assert_eq!(parser!(u8_hex).parse("f").unwrap(), 15),
                    3 => assert_eq!(parser!(i8_hex).parse("-f").unwrap(), -15),
                    4 => assert_eq!(parser!(u16_bin).parse("10").unwrap(), 2),
                    5 => assert_eq!(parser!(i64_bin).parse("-10").unwrap(), -2),
                    6 => assert!(parser!(bool).parse("true").unwrap()),
                    7 => {
                        if k % 2 == 0 {
                            assert_eq!(parser!(u8).parse("7").unwrap(), 7)
                        } else {
                            assert_eq!(parser!(u64).parse("7").unwrap(), 7)
                        }
                    }
                    _ => {
                        if k % 2 == 0 {
                            assert!(parser!(bool).parse("true").unwrap())
                        } else {
                            assert_eq!(parser!(i8).parse("-7").unwrap(), -7)
                        }
                    }
                }
            });
        }
    });
}

fn threads(r: &mut Rng) {
    // shared by reference; parsers with rules cannot be, each thread makes its own
    let sums = parser!(lines({
        v:repeat_sep(digit, ",") "." => v.into_iter().sum::<usize>(),
        "(" w:string(alpha*) ")" => w.len(),
        n:u32 => n as usize,
    }));
    let words = parser!(lines(repeat_sep(string(alpha+), " ")));
    let (a, b) = ("(1,(2,3),())\n4\n", "(1,(2,3),(\n");
    let seedling = r.next();
    std::thread::scope(|s| {
        for k in 0..3u64 {
            let (sums, words) = (&sums, &words);
            s.spawn(move || {
                let mut r = Rng(seedling ^ k);
                for _ in 0..2 {
                    match r.below(4) {
                        0 => assert_eq!(sums.parse("1,2,3.\n(aé)\n77\n").unwrap(), vec![6, 3, 77]),
                        1 => assert!(sums.parse("1,2\n").is_err()),
                        2 => assert_eq!(words.parse("a b\né\n").unwrap()[1], ["é"]),
                        _ => {
                            let tree = parser!(
                                rule t: usize = { d:digit => d, "(" v:list ")" => v.into_iter().sum::<usize>() + 1 };
                                rule list: Vec<usize> = repeat_sep(t, ",");
                                lines(t)
                            );
                            assert_eq!(tree.parse(a).unwrap(), vec![9, 4]);
                            assert!(tree.parse(b).is_err());
                        }
                    }
                }
            });
        }
    });
    // made here, used and dropped there; results and errors come back
    let p = parser!(lines(x:string(alpha+) "=" y:digit => (x, y)));
    let h = std::thread::spawn(move || (p.parse("a=1\nb=2\n"), p.parse("a=1\nb\n")));
    let (ok, err) = h.join().unwrap();
    assert_eq!(ok.unwrap()[1], ("b".to_string(), 2));
    let e = err.unwrap_err();
    let e2 = e.clone();
    std::thread::spawn(move || e.to_string()).join().unwrap();
    let _ = e2.to_string();
    // counted shares
    let p = Arc::new(sums);
    let hs: Vec<_> = (0..2).map(|_| { let p = p.clone(); std::thread::spawn(move || p.parse("1\n").unwrap()) }).collect();
    drop(p);
    for h in hs {
        assert_eq!(h.join().unwrap(), vec![1]);
    }
}

/// Anything the library claims to be shareable (Sync) or movable between threads (Send) is shared
/// or moved; anything else is left alone. What decides is the claim made to the compiler.
struct Shared<'a, P>(&'a P);
impl<P: Parser + Sync> Shared<'_, P> {
    fn go(&self, text: &str) -> bool {
        let p = self.0;
        std::thread::scope(|s| {
            for _ in 0..2 {
                s.spawn(move || {
                    for _ in 0..2 {
                        drop(p.parse(text));
                    }
                });
            }
        });
        true
    }
}
trait NotShared {
    fn go(&self, _: &str) -> bool {
        false
    }
}
impl<P> NotShared for Shared<'_, P> {}

struct Moved<P>(Cell<Option<P>>);
impl<P: Parser + Send> Moved<P> {
    fn go(&self, text: &str, poke: &dyn Fn()) -> bool {
        let p = self.0.take().unwrap();
        std::thread::scope(|s| {
            s.spawn(move || {
                for _ in 0..2 {
                    drop(p.parse(text));
                }
                drop(p);
            });
            poke();
        });
        true
    }
}
trait NotMoved {
    fn go(&self, _: &str, _: &dyn Fn()) -> bool {
        false
    }
}
impl<P> NotMoved for Moved<P> {}

/// not Sync (Cell) but Send
#[derive(Clone)]
struct Counting {
    cell: Cell<usize>,
}
impl Parser for Counting {
    type Output = char;
    type RawOutput = (char,);
    type Iter<'p> = One;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, at: usize) -> Result<One, Reported> {
        self.cell.set(self.cell.get() + 1);
        match cx.source()[at..].chars().next() {
            Some(c) if c.is_alphabetic() => Ok(One(at + c.len_utf8(), c)),
            _ => Err(cx.error_expected(at, "a letter")),
        }
    }
}
/// neither Send nor Sync
#[derive(Clone)]
struct Local {
    rc: Rc<Cell<usize>>,
}
impl Parser for Local {
    type Output = Rc<Cell<usize>>;
    type RawOutput = (Rc<Cell<usize>>,);
    type Iter<'p> = LocalIter<'p>;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, at: usize) -> Result<LocalIter<'p>, Reported> {
        match cx.source()[at..].chars().next() {
            Some(c) if c.is_alphabetic() => Ok(LocalIter(at + c.len_utf8(), &self.rc)),
            _ => Err(cx.error_expected(at, "a letter")),
        }
    }
}
struct One(usize, char);
impl<'p> ParseIter<'p> for One {
    type RawOutput = (char,);
    fn match_end(&self) -> usize {
        self.0
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        Err(cx.error_expected(self.0, "nothing else"))
    }
    fn convert(&self) -> (char,) {
        (self.1,)
    }
}
struct LocalIter<'p>(usize, &'p Rc<Cell<usize>>);
impl<'p> ParseIter<'p> for LocalIter<'p> {
    type RawOutput = (Rc<Cell<usize>>,);
    fn match_end(&self) -> usize {
        self.0
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        Err(cx.error_expected(self.0, "nothing else"))
    }
    fn convert(&self) -> (Rc<Cell<usize>>,) {
        self.1.set(self.1.get() + 1);
        (self.1.clone(),)
    }
}

fn claims() {
    let (mut shared, mut moved, mut n) = (0, 0, 0);
    // each pattern is made twice: by `$make` with a subpattern `x` that must not be shared, and then with one that must not be moved
    macro_rules! go { ($x:ident; ) => {}; ($x:ident; [$text:literal $($p:tt)*] $($more:tt)*) => { {
        n += 1;
        let counting = Counting { cell: Cell::new(0) };
        let p = { let $x = counting.clone(); parser!($($p)*) };
        shared += Shared(&p).go($text) as usize;
        let rc = Rc::new(Cell::new(0));
        let local = Local { rc: rc.clone() };
        let p = { let $x = local; parser!($($p)*) };
        shared += Shared(&p).go($text) as usize;
        let m = Moved(Cell::new(Some(p)));
        moved += m.go($text, &|| rc.set(rc.clone().get() + 1)) as usize;
    } go!($x; $($more)*); } }
    go!(x; ["a" x] ["ab" x alpha] ["aaa" x*] ["aaa" x+] ["a" x?] ["1" {x => 1, digit => 2}] ["a,a" repeat_sep(x, ",")] ["a\na\n" lines(x)] ["a\n" line(x)]
        ["a\n\na\n" sections(line(x))] ["a\n" section(line(x))] ["a" string(x)] ["a" v:x => v] ["aa" vec_deque(x*)] ["a" (x "b"?)] ["a" rule r: usize = x => 1; r]
        ["a" rule r: Vec<usize> = { v:x => vec![1], digit => vec![] }; rule s: usize = r => 2; s]);
    // conversions over state that is not for sharing; each parser is made in a function of its own,
    // so that the compiler knows what the conversion captures
    let cell: &'static Cell<usize> = Box::leak(Box::new(Cell::new(0)));
    let rc: &'static Rc<usize> = Box::leak(Box::new(Rc::new(5)));
    macro_rules! conv { ($c:ident; ) => {}; ($c:ident; [$text:literal $($p:tt)*] $($more:tt)*) => { {
        n += 1;
        fn with_cell($c: &'static Cell<usize>) -> impl Parser {
            let $c = move || { $c.set($c.get() + 1); 1usize };
            let $c: &'static _ = Box::leak(Box::new($c));
            parser!($($p)*)
        }
        fn with_rc($c: &'static Rc<usize>) -> impl Parser {
            let $c = move || *Rc::clone($c);
            let $c: &'static _ = Box::leak(Box::new($c));
            parser!($($p)*)
        }
        shared += Shared(&with_cell(cell)).go($text) as usize;
        moved += Moved(Cell::new(Some(with_cell(cell)))).go($text, &|| cell.set(cell.get() + 1)) as usize;
        shared += Shared(&with_rc(rc)).go($text) as usize;
        moved += Moved(Cell::new(Some(with_rc(rc)))).go($text, &|| drop(rc.clone())) as usize;
    } conv!($c; $($more)*); } }
    conv!(c; ["a" alpha => c()] ["ab" "a" v:alpha => c()] ["a" rule r: usize = alpha => c(); r] ["a\na" lines({ digit => 1, alpha => c() })] ["aa" repeat_sep(alpha => c(), "")]
        ["a" (alpha => c())?] ["aaa" (alpha => c())*] ["a" string(alpha => c())] ["aa" hash_set((alpha => c())*)] ["a" rule r: usize = alpha => 1; r => c()]
        ["a" rule r: usize = { alpha => c(), "(" r ")" }; rule s: Vec<usize> = r*; s]);
    // what is fine to share is shared
    let p = parser!(lines({ x:string(alpha+) "=" y:digit => (x, y), "!" => (String::new(), 0) }));
    let fine = Shared(&p).go("a=1\n!\n") && Moved(Cell::new(Some(p))).go("a=1\n", &|| ());
    println!("claims: patterns {n} shared {shared} moved {moved} fine {fine}");
}

/// The monitors themselves: each of these must be reported.
fn control(which: &str) {
    match which {
        "control-free" => {
            let b = Box::new(5u8);
            let p: *const u8 = &*b;
            drop(b);
            println!("{}", unsafe { std::ptr::read_volatile(p) });
        }
        _ => {
            struct S(std::cell::UnsafeCell<usize>);
            unsafe impl Sync for S {}
            let s = S(std::cell::UnsafeCell::new(0));
            let s = &s;
            let barrier = &Barrier::new(2);
            std::thread::scope(|t| {
                for _ in 0..2 {
                    t.spawn(move || {
                        barrier.wait();
                        for _ in 0..300 {
                            unsafe { *s.0.get() += 1 }
                            std::thread::yield_now();
                        }
                    });
                }
            });
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(2).map_or(1, |s| s.parse().unwrap());
    let mut r = Rng(seed);
    let quiet = a[1] == "hostile";
    std::panic::set_hook(Box::new(move |i| {
        let s = i.to_string();
        // a hostile parser may well make the library panic; it may not make it break an unsafe promise
        if s.contains("unsafe precondition") || (!s.contains("three") && !quiet) {
            eprintln!("{s}");
        }
    }));
    match a[1].as_str() {
        "rules" => (0..3).for_each(|_| rules(&mut r)),
        "values" => (0..2).for_each(|_| values(&mut r)),
        "text" => (0..2).for_each(|_| text(&mut r)),
        "api" => (0..5).for_each(|_| api(&mut r)),
        "hostile" => (0..3).for_each(|_| hostile(&mut r)),
        "threads" => threads(&mut r),
        "first-use" => first_use(&mut r, 3),
        "sequential" => (0..40).for_each(|_| first_use(&mut r, 1)),
        "claims" => claims(),
        "none" => panic!("mode none"),
        m => control(m),
    }
    println!("SAN-OK");
}
