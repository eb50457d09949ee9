//! Abstract syntax of patterns.
use crate::value::V;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cls {
    Alpha,
    Alnum,
    Upper,
    Lower,
    Any,
    Digit,
    DigitBin,
    DigitHex,
}

impl Cls {
    pub const ALL: [Cls; 8] = [
        Cls::Alpha,
        Cls::Alnum,
        Cls::Upper,
        Cls::Lower,
        Cls::Any,
        Cls::Digit,
        Cls::DigitBin,
        Cls::DigitHex,
    ];
    pub fn name(self) -> &'static str {
        match self {
            Cls::Alpha => "alpha",
            Cls::Alnum => "alnum",
            Cls::Upper => "upper",
            Cls::Lower => "lower",
            Cls::Any => "any_char",
            Cls::Digit => "digit",
            Cls::DigitBin => "digit_bin",
            Cls::DigitHex => "digit_hex",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Via {
    Borrowed,
    Function,
    RuleName,
    /// built, moved to the heap, moved out again, used by name
    Moved,
    /// two references deep
    DoublyBorrowed,
}

impl Via {
    pub const ALL: [Via; 5] = [Via::Borrowed, Via::Function, Via::RuleName, Via::Moved, Via::DoublyBorrowed];
}

/// Right-hand side of a `=>` in typed programs.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Expr {
    Arg(usize),
    Const(u32),
    /// a constant: its value and how to write it in Rust
    Val(V, String),
    Tup(Vec<Expr>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Empty,
    Lit(&'static str),
    Chr(char),
    Class(Cls),
    CharOf(&'static str),
    Num(&'static str),
    /// user-written parser offering every listed text that is a prefix of the rest, in this order
    Multi(u32, Vec<&'static str>),
    Seq(Vec<Node>),
    /// `a:p b:q => ...` with an event logged by the conversion
    Conv(u32, Vec<Node>),
    /// typed programs only: terms, label flag per term, result expression over the labelled terms
    TConv(Vec<Node>, Vec<bool>, Expr),
    Group(Box<Node>),
    /// the same pattern reached another way (borrowed, through a function, named, ...); transparent
    Via(Via, Box<Node>),
    Alt(Vec<Node>),
    Star(Box<Node>),
    Plus(Box<Node>),
    Opt(Box<Node>),
    RepSep(Box<Node>, Box<Node>),
    Str(Box<Node>),
    Line(Box<Node>),
    Lines(Box<Node>),
    Section(Box<Node>),
    Sections(Box<Node>),
    /// reference to a rule of some enclosing rule set (index in Grammar::rules)
    Rule(usize),
    /// rules defined here, entry pattern
    RuleSet(Vec<usize>, Box<Node>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Grammar {
    pub root: Node,
    pub rules: Vec<Node>,
    /// equal rule sets written twice are one instance used twice
    pub share: bool,
}

impl Grammar {
    pub fn of(root: Node) -> Grammar {
        Grammar { root, rules: vec![], share: false }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.fmt_node(&self.root, &mut s);
        s
    }
    fn fmt_list(&self, xs: &[Node], sep: &str, s: &mut String) {
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                s.push_str(sep);
            }
            self.fmt_node(x, s);
        }
    }
    fn call(&self, f: &str, n: &Node, s: &mut String) {
        s.push_str(f);
        s.push('(');
        self.fmt_node(n, s);
        s.push(')');
    }
    pub fn fmt_node(&self, n: &Node, s: &mut String) {
        use fmt::Write;
        match n {
            Node::Empty => s.push_str("()"),
            Node::Lit(l) => write!(s, "{l:?}").unwrap(),
            Node::Chr(c) => write!(s, "{c:?}").unwrap(),
            Node::Class(c) => s.push_str(c.name()),
            Node::CharOf(o) => write!(s, "char_of({o:?})").unwrap(),
            Node::Num(k) => s.push_str(k),
            Node::Multi(id, o) => write!(s, "multi{id}{o:?}").unwrap(),
            Node::Seq(xs) => {
                s.push('(');
                self.fmt_list(xs, " ", s);
                s.push(')');
            }
            Node::Conv(id, xs) => {
                s.push('(');
                for (i, x) in xs.iter().enumerate() {
                    write!(s, "x{i}:").unwrap();
                    self.fmt_node(x, s);
                    s.push(' ');
                }
                write!(s, "=> conv{id})").unwrap();
            }
            Node::TConv(xs, labels, e) => {
                s.push('(');
                for (i, x) in xs.iter().enumerate() {
                    if labels[i] {
                        write!(s, "x{i}:").unwrap();
                    }
                    self.fmt_node(x, s);
                    s.push(' ');
                }
                write!(s, "=> {e:?})").unwrap();
            }
            Node::Group(x) => {
                s.push('(');
                self.fmt_node(x, s);
                s.push(')');
            }
            Node::Via(v, x) => {
                write!(s, "{v:?}<").unwrap();
                self.fmt_node(x, s);
                s.push('>');
            }
            Node::Alt(xs) => {
                s.push('{');
                self.fmt_list(xs, ", ", s);
                s.push('}');
            }
            Node::Star(x) => {
                self.fmt_node(x, s);
                s.push('*');
            }
            Node::Plus(x) => {
                self.fmt_node(x, s);
                s.push('+');
            }
            Node::Opt(x) => {
                self.fmt_node(x, s);
                s.push('?');
            }
            Node::RepSep(a, b) => {
                s.push_str("repeat_sep(");
                self.fmt_node(a, s);
                s.push_str(", ");
                self.fmt_node(b, s);
                s.push(')');
            }
            Node::Str(x) => self.call("string", x, s),
            Node::Line(x) => self.call("line", x, s),
            Node::Lines(x) => self.call("lines", x, s),
            Node::Section(x) => self.call("section", x, s),
            Node::Sections(x) => self.call("sections", x, s),
            Node::Rule(i) => write!(s, "r{i}").unwrap(),
            Node::RuleSet(ids, e) => {
                s.push_str("[[");
                for i in ids {
                    write!(s, "rule r{i} = ").unwrap();
                    self.fmt_node(&self.rules[*i], s);
                    s.push_str("; ");
                }
                self.fmt_node(e, s);
                s.push_str("]]");
            }
        }
    }
}

/// Intern a string for the life of the process (the library wants `&'static str`).
pub fn intern(s: &str) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static SET: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = SET.lock().unwrap_or_else(|e| e.into_inner());
    let set = g.get_or_insert_with(HashSet::new);
    if let Some(x) = set.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    set.insert(l);
    l
}
