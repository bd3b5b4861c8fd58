//! Well-formed types of bounded size, one execution state per shape.
use crate::feed::*;
use crate::gram_tab::*;
use crate::rt::*;
use scilla_parser::parser::lexer::*;

pub struct G {
    pub t: Vec<Tok>,
    /// composite nodes left
    pub fuel: usize,
    leaf: usize,
}
const LEAF: [&str; 12] = ["Uint32", "String", "ByStr20", "Bool", "ByStr", "ByStr33", "Foo", "BNum", "Int256", "Uint128", "Event", "Int32"];

impl G {
    pub fn new(fuel: usize, leaf: usize) -> G {
        G { t: vec![], fuel, leaf }
    }
    pub fn w(&mut self, w: &'static str) {
        self.t.push(make(word_kind(w), w))
    }
    fn leaf(&mut self) {
        self.leaf += 1;
        let l = self.leaf;
        if l % 14 == 12 {
            self.w("Lib");
            self.w(".");
            self.w("Name")
        } else if l % 14 == 13 {
            self.w("0x1f");
            self.w(".");
            self.w("Name")
        } else {
            self.w(LEAF[l % 14 % 12])
        }
    }
    /// one of n composite forms, or none (0)
    fn form(&mut self, n: u32) -> u32 {
        if self.fuel == 0 {
            return 0;
        }
        let f = fork(n + 1);
        if f > 0 {
            self.fuel -= 1
        }
        f
    }
    fn map(&mut self) {
        self.w("Map");
        self.key();
        self.val()
    }
    fn name(&mut self, n: &'static str) {
        self.w(n)
    }
    pub fn top(&mut self) {
        match self.form(8) {
            0 => self.leaf(),
            1 => {
                self.name("Option");
                self.arg()
            }
            2 => {
                self.name("List");
                self.arg()
            }
            3 => {
                self.name("Pair");
                self.arg();
                self.arg()
            }
            4 => self.map(),
            5 => {
                self.w("(");
                self.top();
                self.w(")")
            }
            6 => self.addr(),
            7 => {
                self.name("Adt");
                self.arg();
            }
            _ => {
                self.name("Adt");
                self.arg();
                self.arg();
                self.arg()
            }
        }
    }
    fn arg(&mut self) {
        match self.form(3) {
            0 => self.leaf(),
            1 => {
                self.w("(");
                self.top();
                self.w(")")
            }
            2 => self.map(),
            _ => self.addr(),
        }
    }
    fn key(&mut self) {
        match self.form(3) {
            0 => self.leaf(),
            1 => {
                self.w("(");
                self.leaf();
                self.w(")")
            }
            2 => self.addr(),
            _ => {
                self.w("(");
                self.addr();
                self.w(")")
            }
        }
    }
    fn val(&mut self) {
        match self.form(3) {
            0 => self.leaf(),
            1 => self.map(),
            2 => {
                self.w("(");
                self.vala();
                self.w(")")
            }
            _ => self.addr(),
        }
    }
    fn vala(&mut self) {
        match self.form(4) {
            0 => self.val(),
            1 => {
                self.name("Option");
                self.varg()
            }
            2 => {
                self.name("List");
                self.varg()
            }
            3 => {
                self.name("Pair");
                self.varg();
                self.varg()
            }
            _ => {
                self.name("Adt");
                self.varg();
                self.varg();
                self.varg()
            }
        }
    }
    fn varg(&mut self) {
        match self.form(2) {
            0 => self.leaf(),
            1 => {
                self.w("(");
                self.vala();
                self.w(")")
            }
            _ => self.map(),
        }
    }
    fn addr(&mut self) {
        self.w("ByStr20");
        self.w("with");
        match fork(6) {
            0 => {}
            1 => self.w("contract"),
            2 => self.w("library"),
            3 => self.w("_codehash"),
            n => {
                self.w("contract");
                for i in 0..n - 3 {
                    if i > 0 {
                        self.w(",")
                    }
                    self.w("field");
                    self.leaf += 1;
                    match self.leaf % 3 {
                        0 => self.w("fa"),
                        1 => self.w("_fb"),
                        _ => {
                            self.w("Lib");
                            self.w(".");
                            self.w("fc")
                        }
                    }
                    self.w(":");
                    self.top()
                }
            }
        }
        self.w("end")
    }
}

/// a program with one generated type as a parameter, field or transition parameter
pub fn program(fuel: usize) -> Vec<Tok> {
    let l = fork(3) as usize;
    let mut g = G::new(fuel, 4 * l);
    for w in ["scilla_version", "0", "contract", "C", "("] {
        g.w(w)
    }
    match l {
        0 => {
            for w in ["a", ":", "Bool", ",", "b", ":"] {
                g.w(w)
            }
            g.top();
            g.w(")")
        }
        1 => {
            for w in [")", "field", "a", ":", "Bool", "=", "x", "field", "b", ":"] {
                g.w(w)
            }
            g.top();
            g.w("=");
            g.w("x")
        }
        _ => {
            for w in [")", "transition", "T", "(", "b", ":"] {
                g.w(w)
            }
            g.top();
            for w in [",", "a", ":", "Bool", ")", "end"] {
                g.w(w)
            }
        }
    }
    g.t
}
fn run(fuel: usize) {
    let t = program(fuel);
    crate::parse::explore(Feed::from(t, 0))
}
pub fn g_types2() {
    run(2)
}
pub fn g_types3() {
    run(3)
}
pub fn g_types4() {
    run(4)
}
