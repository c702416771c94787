//! A small SQL database in memory: the part of SQLite that a key-value store over two tables needs.
//! Whatever is not understood ends in `unsupported`, never in a guess.
use crate::unsupported;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Null,
    Int(i64),
    Text(String),
    Blob(Vec<u8>),
}
pub struct SqlError(pub &'static str);
type Res<T> = Result<T, SqlError>;

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Id(String, bool),
    Num(i64),
    Str(String),
    Param(usize),
    Op(&'static str),
}
fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let (mut i, mut out, mut params) = (0, Vec::new(), 0);
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if c == b'-' && b.get(i + 1) == Some(&b'-') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'"' || c == b'`' || c == b'\'' || c == b'[' {
            let e = if c == b'[' { b']' } else { c };
            let st = i + 1;
            i = st;
            while i < b.len() && b[i] != e {
                i += 1;
            }
            let t = s[st..i].to_string();
            i += 1;
            out.push(if c == b'\'' { Tok::Str(t) } else { Tok::Id(t, true) });
        } else if c.is_ascii_digit() {
            let mut v = 0i64;
            while i < b.len() && b[i].is_ascii_digit() {
                v = v * 10 + (b[i] - b'0') as i64;
                i += 1;
            }
            out.push(Tok::Num(v));
        } else if c == b'?' || c == b'$' {
            i += 1;
            let mut v = 0;
            while i < b.len() && b[i].is_ascii_digit() {
                v = v * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if v == 0 {
                v = params + 1;
            }
            params = params.max(v);
            out.push(Tok::Param(v - 1));
        } else if c.is_ascii_alphabetic() || c == b'_' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            out.push(Tok::Id(s[st..i].to_ascii_lowercase(), false));
        } else {
            let two = if i + 1 < b.len() { &b[i..i + 2] } else { &b[i..] };
            let op = match two {
                b"<=" => "<=",
                b">=" => ">=",
                b"<>" | b"!=" => "!=",
                b"==" => "=",
                b"||" => unsupported("SQL operator ||"),
                _ => match c {
                    b'=' => "=",
                    b'<' => "<",
                    b'>' => ">",
                    b'(' => "(",
                    b')' => ")",
                    b',' => ",",
                    b';' => ";",
                    b'.' => ".",
                    b'*' => "*",
                    b'+' => "+",
                    b'-' => "-",
                    _ => unsupported("SQL character"),
                },
            };
            i += if two.len() == 2 && (op.len() == 2 || two == b"==") { 2 } else { 1 };
            out.push(Tok::Op(op));
        }
    }
    out
}

#[derive(Clone, Debug)]
pub enum Ex {
    Lit(Value),
    Param(usize),
    Col(Option<String>, String),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Not(Box<Ex>),
    IsNull(Box<Ex>, bool),
    In(Box<Ex>, Vec<Ex>, bool),
    InSel(Box<Ex>, Box<Sel>, bool),
    Scalar(Box<Sel>),
    Exists(Box<Sel>),
    Call(String, Vec<Ex>),
    Star,
}
#[derive(Clone, Debug)]
pub struct From {
    table: String,
    alias: String,
    on: Option<Ex>,
    left: bool,
}
#[derive(Clone, Debug)]
pub struct Sel {
    cols: Vec<Ex>,
    from: Vec<From>,
    filter: Option<Ex>,
    order: Vec<(Ex, bool)>,
    limit: Option<Ex>,
    distinct: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Conflict {
    Abort,
    Ignore,
    Replace,
}
#[derive(Debug)]
pub enum Stmt {
    Nop,
    Begin,
    Commit,
    Rollback,
    Create(Table, bool),
    Insert { table: String, cols: Vec<String>, rows: Vec<Vec<Ex>>, conflict: Conflict },
    Update { table: String, set: Vec<(String, Ex)>, filter: Option<Ex> },
    Delete { table: String, filter: Option<Ex> },
    Select(Sel),
}
#[derive(Clone, Debug)]
struct Col {
    name: String,
    not_null: bool,
    unique: bool,
    rowid: bool,
}
#[derive(Clone, Debug)]
struct Fk {
    col: usize,
    table: String,
    to: String,
    cascade: bool,
}
#[derive(Clone, Debug)]
pub struct Table {
    name: String,
    cols: Vec<Col>,
    uniques: Vec<Vec<usize>>,
    checks: Vec<Ex>,
    fks: Vec<Fk>,
    rows: Vec<Vec<Value>>,
}

struct P {
    t: Vec<Tok>,
    i: usize,
}
impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn kw(&mut self, k: &str) -> bool {
        match self.peek() {
            Some(Tok::Id(s, false)) if s == k => {
                self.i += 1;
                true
            }
            _ => false,
        }
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(s, false)) if s == k)
    }
    fn need_kw(&mut self, k: &str) {
        if !self.kw(k) {
            unsupported(k)
        }
    }
    fn op(&mut self, o: &str) -> bool {
        match self.peek() {
            Some(Tok::Op(p)) if *p == o => {
                self.i += 1;
                true
            }
            _ => false,
        }
    }
    fn need(&mut self, o: &str) {
        if !self.op(o) {
            unsupported(o)
        }
    }
    fn id(&mut self) -> String {
        match self.peek().cloned() {
            Some(Tok::Id(s, _)) => {
                self.i += 1;
                s
            }
            _ => unsupported("SQL identifier"),
        }
    }
    fn end(&self) -> bool {
        matches!(self.peek(), None | Some(Tok::Op(";")))
    }
    fn ids(&mut self) -> Vec<String> {
        self.need("(");
        let mut v = vec![self.id()];
        while self.op(",") {
            v.push(self.id());
        }
        self.need(")");
        v
    }
    fn stmt(&mut self) -> Stmt {
        if self.kw("begin") {
            self.skip();
            return Stmt::Begin;
        }
        if self.kw("commit") || self.kw("end") {
            self.skip();
            return Stmt::Commit;
        }
        if self.kw("rollback") {
            self.skip();
            return Stmt::Rollback;
        }
        if self.kw("pragma") || self.kw("vacuum") || self.kw("analyze") {
            self.skip();
            return Stmt::Nop;
        }
        if self.kw("create") {
            if self.kw("table") {
                return self.create();
            }
            if self.is_kw("unique") {
                unsupported("unique index")
            }
            if !self.is_kw("index") {
                unsupported("create")
            }
            self.skip();
            return Stmt::Nop;
        }
        let replace = self.is_kw("replace");
        if replace || self.is_kw("insert") {
            self.i += 1;
            let mut conflict = if replace { Conflict::Replace } else { Conflict::Abort };
            if self.kw("or") {
                conflict = match self.id().as_str() {
                    "ignore" => Conflict::Ignore,
                    "replace" => Conflict::Replace,
                    "abort" | "fail" | "rollback" => Conflict::Abort,
                    _ => unsupported("insert or"),
                };
            }
            self.need_kw("into");
            let table = self.id();
            let cols = if matches!(self.peek(), Some(Tok::Op("("))) { self.ids() } else { Vec::new() };
            self.need_kw("values");
            let mut rows = Vec::new();
            loop {
                self.need("(");
                rows.push(self.list());
                self.need(")");
                if !self.op(",") {
                    break;
                }
            }
            if self.kw("on") {
                self.need_kw("conflict");
                if matches!(self.peek(), Some(Tok::Op("("))) {
                    self.ids();
                }
                self.need_kw("do");
                self.need_kw("nothing");
                conflict = Conflict::Ignore;
            }
            return Stmt::Insert { table, cols, rows, conflict };
        }
        if self.kw("update") {
            let table = self.id();
            self.need_kw("set");
            let mut set = Vec::new();
            loop {
                let c = self.id();
                self.need("=");
                set.push((c, self.expr()));
                if !self.op(",") {
                    break;
                }
            }
            let filter = if self.kw("where") { Some(self.expr()) } else { None };
            return Stmt::Update { table, set, filter };
        }
        if self.kw("delete") {
            self.need_kw("from");
            let table = self.id();
            let filter = if self.kw("where") { Some(self.expr()) } else { None };
            return Stmt::Delete { table, filter };
        }
        if self.is_kw("select") {
            return Stmt::Select(self.select());
        }
        unsupported("SQL statement")
    }
    fn skip(&mut self) {
        while !self.end() {
            self.i += 1;
        }
    }
    fn create(&mut self) -> Stmt {
        let mut ine = false;
        if self.kw("if") {
            self.need_kw("not");
            self.need_kw("exists");
            ine = true;
        }
        let name = self.id();
        let mut t = Table { name, cols: vec![], uniques: vec![], checks: vec![], fks: vec![], rows: vec![] };
        let mut pk = Vec::new();
        self.need("(");
        loop {
            if self.kw("constraint") {
                self.id();
            }
            if self.kw("primary") {
                self.need_kw("key");
                pk = self.ids();
            } else if self.kw("unique") {
                let v = self.ids();
                let v = v.iter().map(|c| t.col(c)).collect();
                t.uniques.push(v);
            } else if self.kw("check") {
                self.need("(");
                let e = self.expr();
                self.need(")");
                t.checks.push(e);
            } else if self.kw("foreign") {
                self.need_kw("key");
                let c = self.ids();
                self.reference(&mut t, &c[0].clone());
            } else {
                let c = self.id();
                let mut int = false;
                // type name
                while let Some(Tok::Id(s, false)) = self.peek() {
                    match s.as_str() {
                        "not" | "null" | "unique" | "primary" | "check" | "references" | "default" => break,
                        s => int |= s == "integer",
                    }
                    self.i += 1;
                }
                t.cols.push(Col { name: c.clone(), not_null: false, unique: false, rowid: false });
                let n = t.cols.len() - 1;
                loop {
                    if self.kw("not") {
                        self.need_kw("null");
                        t.cols[n].not_null = true;
                    } else if self.kw("null") || self.kw("autoincrement") || self.kw("asc") {
                    } else if self.kw("unique") {
                        t.cols[n].unique = true;
                    } else if self.kw("primary") {
                        self.need_kw("key");
                        t.cols[n].unique = true;
                        t.cols[n].rowid = int;
                    } else if self.kw("check") {
                        self.need("(");
                        let e = self.expr();
                        self.need(")");
                        t.checks.push(e);
                    } else if self.is_kw("references") {
                        self.reference(&mut t, &c);
                    } else if self.is_kw("default") || self.is_kw("collate") || self.is_kw("generated") {
                        unsupported("column clause")
                    } else {
                        break;
                    }
                }
                if int {
                    t.cols[n].rowid |= false;
                    if !t.cols.iter().take(n).any(|c| c.rowid) && int {
                        // becomes the rowid only when it is the whole primary key (below)
                    }
                }
            }
            if !self.op(",") {
                break;
            }
        }
        self.need(")");
        self.skip();
        if pk.len() == 1 {
            let n = t.col(&pk[0]);
            t.cols[n].unique = true;
            t.cols[n].rowid = true;
        } else if pk.len() > 1 {
            let v = pk.iter().map(|c| t.col(c)).collect();
            t.uniques.push(v);
        }
        Stmt::Create(t, ine)
    }
    fn reference(&mut self, t: &mut Table, col: &str) {
        self.need_kw("references");
        let table = self.id();
        let to = self.ids()[0].clone();
        let mut cascade = false;
        while self.kw("on") {
            let del = self.kw("delete");
            if !del {
                self.need_kw("update");
            }
            if self.kw("cascade") {
                cascade |= del;
            } else if self.kw("no") {
                self.need_kw("action");
            } else if !self.kw("restrict") {
                unsupported("foreign key action")
            }
        }
        if self.is_kw("deferrable") {
            unsupported("deferrable")
        }
        let col = t.col(col);
        t.fks.push(Fk { col, table, to, cascade });
    }
    fn list(&mut self) -> Vec<Ex> {
        let mut v = vec![self.expr()];
        while self.op(",") {
            v.push(self.expr());
        }
        v
    }
    fn select(&mut self) -> Sel {
        self.need_kw("select");
        let distinct = self.kw("distinct");
        let mut cols = Vec::new();
        loop {
            cols.push(if self.op("*") { Ex::Star } else { self.expr() });
            if self.kw("as") {
                self.id();
            }
            if !self.op(",") {
                break;
            }
        }
        let mut from = Vec::new();
        if self.kw("from") {
            from.push(self.from());
            loop {
                if self.op(",") || self.kw("cross") {
                    self.kw("join");
                    from.push(self.from());
                    continue;
                }
                let left = self.kw("left");
                if left {
                    self.kw("outer");
                }
                let inner = self.kw("inner");
                if !self.kw("join") {
                    if left || inner {
                        unsupported("join")
                    }
                    break;
                }
                let mut f = self.from();
                f.left = left;
                if self.kw("on") {
                    f.on = Some(self.expr());
                } else if self.is_kw("using") {
                    unsupported("using")
                }
                from.push(f);
            }
        }
        let filter = if self.kw("where") { Some(self.expr()) } else { None };
        if self.is_kw("group") || self.is_kw("having") || self.is_kw("union") {
            unsupported("group by")
        }
        let mut order = Vec::new();
        if self.kw("order") {
            self.need_kw("by");
            loop {
                let e = self.expr();
                let desc = if self.kw("desc") {
                    true
                } else {
                    self.kw("asc");
                    false
                };
                order.push((e, desc));
                if !self.op(",") {
                    break;
                }
            }
        }
        let limit = if self.kw("limit") { Some(self.expr()) } else { None };
        if self.is_kw("offset") || self.is_kw("union") {
            unsupported("offset")
        }
        Sel { cols, from, filter, order, limit, distinct }
    }
    fn from(&mut self) -> From {
        if matches!(self.peek(), Some(Tok::Op("("))) {
            unsupported("subquery in from")
        }
        let table = self.id();
        let mut alias = table.clone();
        if self.kw("as") {
            alias = self.id();
        } else if let Some(Tok::Id(s, q)) = self.peek() {
            let kws = ["inner", "left", "join", "on", "where", "order", "limit", "cross", "group", "having", "union", "using", "natural", "indexed"];
            if *q || !kws.contains(&s.as_str()) {
                alias = self.id();
            }
        }
        From { table, alias, on: None, left: false }
    }
    fn expr(&mut self) -> Ex {
        let mut a = self.and();
        while self.kw("or") {
            let b = self.and();
            a = Ex::Bin("or", Box::new(a), Box::new(b));
        }
        a
    }
    fn and(&mut self) -> Ex {
        let mut a = self.not();
        while self.kw("and") {
            let b = self.not();
            a = Ex::Bin("and", Box::new(a), Box::new(b));
        }
        a
    }
    fn not(&mut self) -> Ex {
        if self.kw("not") {
            return Ex::Not(Box::new(self.not()));
        }
        self.cmp()
    }
    fn cmp(&mut self) -> Ex {
        let mut a = self.add();
        loop {
            let mut neg = false;
            if self.kw("is") {
                neg = self.kw("not");
                self.need_kw("null");
                a = Ex::IsNull(Box::new(a), neg);
                continue;
            }
            if self.kw("not") {
                neg = true;
            }
            if self.kw("in") {
                self.need("(");
                a = if self.is_kw("select") {
                    let s = self.select();
                    Ex::InSel(Box::new(a), Box::new(s), neg)
                } else {
                    Ex::In(Box::new(a), self.list(), neg)
                };
                self.need(")");
                continue;
            }
            if self.kw("between") {
                let lo = self.add();
                self.need_kw("and");
                let hi = self.add();
                let b = Ex::Bin("and", Box::new(Ex::Bin(">=", Box::new(a.clone()), Box::new(lo))), Box::new(Ex::Bin("<=", Box::new(a), Box::new(hi))));
                a = if neg { Ex::Not(Box::new(b)) } else { b };
                continue;
            }
            if neg || self.is_kw("like") || self.is_kw("glob") {
                unsupported("SQL operator")
            }
            let o = match self.peek() {
                Some(Tok::Op(o)) if ["=", "!=", "<", "<=", ">", ">="].contains(o) => *o,
                _ => return a,
            };
            self.i += 1;
            let b = self.add();
            a = Ex::Bin(o, Box::new(a), Box::new(b));
        }
    }
    fn add(&mut self) -> Ex {
        let mut a = self.prim();
        loop {
            let o = if self.op("+") {
                "+"
            } else if self.op("-") {
                "-"
            } else {
                return a;
            };
            let b = self.prim();
            a = Ex::Bin(o, Box::new(a), Box::new(b));
        }
    }
    fn prim(&mut self) -> Ex {
        let t = match self.peek().cloned() {
            Some(t) => t,
            None => unsupported("end of SQL"),
        };
        self.i += 1;
        match t {
            Tok::Num(n) => Ex::Lit(Value::Int(n)),
            Tok::Str(s) => Ex::Lit(Value::Text(s)),
            Tok::Param(n) => Ex::Param(n),
            Tok::Op("-") => {
                let e = self.prim();
                Ex::Bin("-", Box::new(Ex::Lit(Value::Int(0))), Box::new(e))
            }
            Tok::Op("(") => {
                let e = if self.is_kw("select") { Ex::Scalar(Box::new(self.select())) } else { self.expr() };
                self.need(")");
                e
            }
            Tok::Op("*") => Ex::Star,
            Tok::Id(s, q) => {
                if !q {
                    match s.as_str() {
                        "null" => return Ex::Lit(Value::Null),
                        "true" => return Ex::Lit(Value::Int(1)),
                        "false" => return Ex::Lit(Value::Int(0)),
                        "exists" => {
                            self.need("(");
                            let x = self.select();
                            self.need(")");
                            return Ex::Exists(Box::new(x));
                        }
                        "case" | "cast" => unsupported("SQL expression"),
                        _ => {}
                    }
                    if self.op("(") {
                        if self.op(")") {
                            return Ex::Call(s, vec![]);
                        }
                        if self.is_kw("distinct") {
                            unsupported("distinct aggregate")
                        }
                        let v = self.list();
                        self.need(")");
                        return Ex::Call(s, v);
                    }
                }
                if self.op(".") {
                    if self.op("*") {
                        unsupported("table.*")
                    }
                    let c = self.id();
                    return Ex::Col(Some(s), c);
                }
                Ex::Col(None, s)
            }
            _ => unsupported("SQL expression"),
        }
    }
}
pub fn parse(sql: &str) -> Vec<Stmt> {
    let mut p = P { t: lex(sql), i: 0 };
    let mut v = Vec::new();
    loop {
        while p.op(";") {}
        if p.peek().is_none() {
            return v;
        }
        v.push(p.stmt());
        if !p.end() {
            unsupported("SQL syntax")
        }
    }
}

impl Table {
    fn col(&self, n: &str) -> usize {
        match self.cols.iter().position(|c| c.name.eq_ignore_ascii_case(n)) {
            Some(i) => i,
            None => unsupported("unknown column"),
        }
    }
}
#[derive(Clone, Default)]
pub struct Db {
    pub tables: Vec<Rc<Table>>,
    pub saved: Option<Vec<Rc<Table>>>,
}
/// Row in scope: table alias, table, row.
type Scope<'a> = Vec<(&'a str, &'a Table, Option<&'a [Value]>)>;
fn truth(v: &Value) -> Option<bool> {
    match v {
        Value::Null => None,
        Value::Int(i) => Some(*i != 0),
        _ => unsupported("truth of text"),
    }
}
fn b2v(b: Option<bool>) -> Value {
    match b {
        None => Value::Null,
        Some(b) => Value::Int(b as i64),
    }
}
fn rank(v: &Value) -> u8 {
    match v {
        Value::Null => 0,
        Value::Int(_) => 1,
        Value::Text(_) => 2,
        Value::Blob(_) => 3,
    }
}
fn order(a: &Value, b: &Value) -> std::cmp::Ordering {
    match (a, b) {
        (Value::Int(a), Value::Int(b)) => a.cmp(b),
        (Value::Text(a), Value::Text(b)) => a.cmp(b),
        (Value::Blob(a), Value::Blob(b)) => a.cmp(b),
        _ => rank(a).cmp(&rank(b)),
    }
}
impl Db {
    fn table(&self, n: &str) -> Rc<Table> {
        match self.tables.iter().find(|t| t.name.eq_ignore_ascii_case(n)) {
            Some(t) => t.clone(),
            None => unsupported("unknown table"),
        }
    }
    fn table_mut(&mut self, n: &str) -> &mut Table {
        match self.tables.iter_mut().find(|t| t.name.eq_ignore_ascii_case(n)) {
            Some(t) => Rc::make_mut(t),
            None => unsupported("unknown table"),
        }
    }
    fn eval(&self, e: &Ex, sc: &Scope, p: &[Value]) -> Value {
        match e {
            Ex::Lit(v) => v.clone(),
            Ex::Param(n) => p.get(*n).cloned().unwrap_or(Value::Null),
            Ex::Col(t, c) => {
                let mut found = None;
                // the innermost scope is last; ambiguity is an error in SQL
                for (alias, table, row) in sc.iter() {
                    if let Some(t) = t {
                        if !alias.eq_ignore_ascii_case(t) {
                            continue;
                        }
                    }
                    if let Some(i) = table.cols.iter().position(|x| x.name.eq_ignore_ascii_case(c)) {
                        if found.is_some() && t.is_none() {
                            unsupported("ambiguous column")
                        }
                        found = Some(row.map(|r| r[i].clone()).unwrap_or(Value::Null));
                    }
                }
                match found {
                    Some(v) => v,
                    None => unsupported("unknown column"),
                }
            }
            Ex::Bin("and", a, b) => {
                let a = truth(&self.eval(a, sc, p));
                if a == Some(false) {
                    return Value::Int(0);
                }
                match (a, truth(&self.eval(b, sc, p))) {
                    (_, Some(false)) => Value::Int(0),
                    (Some(true), Some(true)) => Value::Int(1),
                    _ => Value::Null,
                }
            }
            Ex::Bin("or", a, b) => {
                let a = truth(&self.eval(a, sc, p));
                if a == Some(true) {
                    return Value::Int(1);
                }
                match (a, truth(&self.eval(b, sc, p))) {
                    (_, Some(true)) => Value::Int(1),
                    (Some(false), Some(false)) => Value::Int(0),
                    _ => Value::Null,
                }
            }
            Ex::Bin(o, a, b) => {
                let (a, b) = (self.eval(a, sc, p), self.eval(b, sc, p));
                if a == Value::Null || b == Value::Null {
                    return Value::Null;
                }
                let r = match *o {
                    "=" => a == b,
                    "!=" => a != b,
                    "<" => order(&a, &b).is_lt(),
                    "<=" => order(&a, &b).is_le(),
                    ">" => order(&a, &b).is_gt(),
                    ">=" => order(&a, &b).is_ge(),
                    o => match (a, b) {
                        (Value::Int(a), Value::Int(b)) => return Value::Int(if o == "+" { a.wrapping_add(b) } else { a.wrapping_sub(b) }),
                        _ => unsupported("arithmetic on text"),
                    },
                };
                Value::Int(r as i64)
            }
            Ex::Not(a) => b2v(truth(&self.eval(a, sc, p)).map(|b| !b)),
            Ex::IsNull(a, neg) => Value::Int(((self.eval(a, sc, p) == Value::Null) != *neg) as i64),
            Ex::In(a, l, neg) => {
                let a = self.eval(a, sc, p);
                Value::Int((l.iter().any(|x| self.eval(x, sc, p) == a) != *neg) as i64)
            }
            Ex::InSel(a, s, neg) => {
                let a = self.eval(a, sc, p);
                Value::Int((self.rows(s, sc, p).iter().any(|r| r[0] == a) != *neg) as i64)
            }
            Ex::Scalar(s) => self.rows(s, sc, p).into_iter().next().map(|r| r[0].clone()).unwrap_or(Value::Null),
            Ex::Exists(s) => Value::Int(!self.rows(s, sc, p).is_empty() as i64),
            Ex::Call(f, a) => match (f.as_str(), a.len()) {
                ("length", 1) => match self.eval(&a[0], sc, p) {
                    Value::Blob(b) => Value::Int(b.len() as i64),
                    Value::Text(b) => Value::Int(b.chars().count() as i64),
                    Value::Null => Value::Null,
                    _ => unsupported("length of integer"),
                },
                ("coalesce", _) | ("ifnull", 2) => {
                    for x in a {
                        let v = self.eval(x, sc, p);
                        if v != Value::Null {
                            return v;
                        }
                    }
                    Value::Null
                }
                _ => unsupported("SQL function"),
            },
            Ex::Star => unsupported("*"),
        }
    }
    fn join(&self, s: &Sel, tabs: &[Rc<Table>], k: usize, picked: &mut Vec<Option<usize>>, outer: &Scope, p: &[Value], out: &mut Vec<Vec<Option<usize>>>) {
        if k == s.from.len() {
            let sc = scope(s, tabs, picked, outer);
            if s.filter.as_ref().map_or(true, |f| truth(&self.eval(f, &sc, p)) == Some(true)) {
                out.push(picked.clone());
            }
            return;
        }
        let mut any = false;
        for r in 0..tabs[k].rows.len() {
            picked.push(Some(r));
            let ok = match &s.from[k].on {
                None => true,
                Some(e) => truth(&self.eval(e, &scope(s, tabs, picked, outer), p)) == Some(true),
            };
            if ok {
                any = true;
                self.join(s, tabs, k + 1, picked, outer, p, out);
            }
            picked.pop();
        }
        if s.from[k].left && !any {
            picked.push(None);
            self.join(s, tabs, k + 1, picked, outer, p, out);
            picked.pop();
        }
    }
    fn rows(&self, s: &Sel, outer: &Scope, p: &[Value]) -> Vec<Vec<Value>> {
        let tabs: Vec<Rc<Table>> = s.from.iter().map(|f| self.table(&f.table)).collect();
        let mut hits = Vec::new();
        self.join(s, &tabs, 0, &mut Vec::new(), outer, p, &mut hits);
        let agg = s.cols.iter().any(|c| matches!(c, Ex::Call(f, a) if (f == "max" || f == "min") && a.len() == 1 || f == "count" || f == "sum" || f == "total"));
        if agg {
            let mut row = Vec::new();
            for c in &s.cols {
                row.push(match c {
                    Ex::Call(f, a) if f == "count" => {
                        let star = a.is_empty() || matches!(a[0], Ex::Star);
                        Value::Int(hits.iter().filter(|h| star || self.eval(&a[0], &scope(s, &tabs, h, outer), p) != Value::Null).count() as i64)
                    }
                    Ex::Call(f, a) if f == "max" || f == "min" => {
                        let mut best = Value::Null;
                        for h in &hits {
                            let v = self.eval(&a[0], &scope(s, &tabs, h, outer), p);
                            if v == Value::Null {
                                continue;
                            }
                            if best == Value::Null || (f == "max") == order(&v, &best).is_gt() && v != best {
                                best = v;
                            }
                        }
                        best
                    }
                    _ => unsupported("aggregate"),
                });
            }
            return vec![row];
        }
        // stable insertion sort
        let mut keyed: Vec<(Vec<Value>, Vec<Option<usize>>)> = Vec::new();
        for h in hits {
            let sc = scope(s, &tabs, &h, outer);
            let key: Vec<Value> = s.order.iter().map(|(e, _)| self.eval(e, &sc, p)).collect();
            let mut at = keyed.len();
            while at > 0 && less(&key, &keyed[at - 1].0, &s.order) {
                at -= 1;
            }
            keyed.insert(at, (key, h));
        }
        let n = match &s.limit {
            None => keyed.len(),
            Some(e) => match self.eval(e, &Vec::new(), p) {
                Value::Int(i) if i >= 0 => i as usize,
                _ => keyed.len(),
            },
        };
        let mut out: Vec<Vec<Value>> = Vec::new();
        for (_, h) in keyed {
            if out.len() >= n {
                break;
            }
            let sc = scope(s, &tabs, &h, outer);
            let mut row = Vec::new();
            for c in &s.cols {
                if let Ex::Star = c {
                    for (i, t) in tabs.iter().enumerate() {
                        match h[i] {
                            Some(r) => row.extend(t.rows[r].iter().cloned()),
                            None => row.extend(t.cols.iter().map(|_| Value::Null)),
                        }
                    }
                } else {
                    row.push(self.eval(c, &sc, p));
                }
            }
            if s.distinct && out.contains(&row) {
                continue;
            }
            out.push(row);
        }
        out
    }
    pub fn select(&self, s: &Sel, p: &[Value]) -> Vec<Vec<Value>> {
        self.rows(s, &Vec::new(), p)
    }
    fn insert_row(&mut self, table: &str, mut row: Vec<Value>, conflict: Conflict) -> Res<u64> {
        let t = self.table(table);
        for (i, c) in t.cols.iter().enumerate() {
            if c.rowid && row[i] == Value::Null {
                let m = t.rows.iter().map(|r| if let Value::Int(x) = r[i] { x } else { 0 }).max().unwrap_or(0);
                row[i] = Value::Int(m + 1);
            }
            if c.not_null && row[i] == Value::Null {
                return if conflict == Conflict::Ignore { Ok(0) } else { Err(SqlError("NOT NULL constraint failed")) };
            }
        }
        let sc: Scope = vec![(&t.name, &*t, Some(&row))];
        for c in &t.checks {
            if truth(&self.eval(c, &sc, &[])) == Some(false) {
                return if conflict == Conflict::Ignore { Ok(0) } else { Err(SqlError("CHECK constraint failed")) };
            }
        }
        let mut sets: Vec<Vec<usize>> = t.uniques.clone();
        for (i, c) in t.cols.iter().enumerate() {
            if c.unique {
                sets.push(vec![i]);
            }
        }
        let clash: Vec<usize> = (0..t.rows.len())
            .filter(|r| sets.iter().any(|s| s.iter().all(|i| t.rows[*r][*i] != Value::Null && t.rows[*r][*i] == row[*i])))
            .collect();
        if !clash.is_empty() {
            match conflict {
                Conflict::Abort => return Err(SqlError("UNIQUE constraint failed")),
                Conflict::Ignore => return Ok(0),
                Conflict::Replace => self.delete_rows(table, &clash),
            }
        }
        for fk in &t.fks {
            self.fk_check(fk, &row)?;
        }
        self.table_mut(table).rows.push(row);
        Ok(1)
    }
    fn fk_check(&self, fk: &Fk, row: &[Value]) -> Res<()> {
        if row[fk.col] == Value::Null {
            return Ok(());
        }
        let o = self.table(&fk.table);
        let c = o.col(&fk.to);
        if o.rows.iter().any(|r| r[c] == row[fk.col]) {
            Ok(())
        } else {
            Err(SqlError("FOREIGN KEY constraint failed"))
        }
    }
    fn delete_rows(&mut self, table: &str, idx: &[usize]) {
        let t = self.table(table);
        let gone: Vec<Vec<Value>> = idx.iter().map(|i| t.rows[*i].clone()).collect();
        let mut n = 0;
        self.table_mut(table).rows.retain(|_| {
            n += 1;
            !idx.contains(&(n - 1))
        });
        let others: Vec<Rc<Table>> = self.tables.clone();
        for o in others {
            for fk in &o.fks {
                if !fk.table.eq_ignore_ascii_case(table) {
                    continue;
                }
                let c = t.col(&fk.to);
                let hit: Vec<usize> = (0..o.rows.len()).filter(|r| gone.iter().any(|g| g[c] == o.rows[*r][fk.col])).collect();
                if !hit.is_empty() {
                    if !fk.cascade {
                        unsupported("restricting foreign key")
                    }
                    self.delete_rows(&o.name, &hit);
                }
            }
        }
    }
    fn matching(&self, table: &str, f: &Option<Ex>, p: &[Value]) -> Vec<usize> {
        let t = self.table(table);
        (0..t.rows.len())
            .filter(|r| match f {
                None => true,
                Some(e) => truth(&self.eval(e, &vec![(&t.name[..], &*t, Some(&t.rows[*r][..]))], p)) == Some(true),
            })
            .collect()
    }
    /// Runs one statement that changes the database; on an error nothing is changed.
    pub fn run(&mut self, s: &Stmt, p: &[Value]) -> Res<u64> {
        let before = self.tables.clone();
        let r = self.run_inner(s, p);
        if r.is_err() {
            self.tables = before;
        }
        r
    }
    fn run_inner(&mut self, s: &Stmt, p: &[Value]) -> Res<u64> {
        match s {
            Stmt::Nop | Stmt::Select(_) => Ok(0),
            Stmt::Begin => {
                if self.saved.is_some() {
                    return Err(SqlError("cannot start a transaction within a transaction"));
                }
                self.saved = Some(self.tables.clone());
                Ok(0)
            }
            Stmt::Commit => {
                if self.saved.take().is_none() {
                    return Err(SqlError("cannot commit - no transaction is active"));
                }
                Ok(0)
            }
            Stmt::Rollback => {
                if let Some(t) = self.saved.take() {
                    self.tables = t;
                }
                Ok(0)
            }
            Stmt::Create(t, ine) => {
                if self.tables.iter().any(|x| x.name.eq_ignore_ascii_case(&t.name)) {
                    return if *ine { Ok(0) } else { Err(SqlError("table already exists")) };
                }
                self.tables.push(Rc::new(t.clone()));
                Ok(0)
            }
            Stmt::Insert { table, cols, rows, conflict } => {
                let t = self.table(table);
                let mut n = 0;
                for r in rows {
                    let mut row = vec![Value::Null; t.cols.len()];
                    for (i, e) in r.iter().enumerate() {
                        let c = if cols.is_empty() { i } else { t.col(&cols[i]) };
                        row[c] = self.eval(e, &Vec::new(), p);
                    }
                    n += self.insert_row(table, row, *conflict)?;
                }
                Ok(n)
            }
            Stmt::Update { table, set, filter } => {
                let t = self.table(table);
                let hit = self.matching(table, filter, p);
                for i in &hit {
                    let mut row = t.rows[*i].clone();
                    for (c, e) in set {
                        row[t.col(c)] = self.eval(e, &vec![(&t.name[..], &*t, Some(&t.rows[*i][..]))], p);
                    }
                    let sc: Scope = vec![(&t.name, &*t, Some(&row))];
                    for c in &t.checks {
                        if truth(&self.eval(c, &sc, &[])) == Some(false) {
                            return Err(SqlError("CHECK constraint failed"));
                        }
                    }
                    for (k, c) in t.cols.iter().enumerate() {
                        if c.not_null && row[k] == Value::Null {
                            return Err(SqlError("NOT NULL constraint failed"));
                        }
                        if c.unique && row[k] != t.rows[*i][k] {
                            unsupported("update of a key")
                        }
                    }
                    for fk in &t.fks {
                        self.fk_check(fk, &row)?;
                    }
                    self.table_mut(table).rows[*i] = row;
                }
                Ok(hit.len() as u64)
            }
            Stmt::Delete { table, filter } => {
                let hit = self.matching(table, filter, p);
                self.delete_rows(table, &hit);
                Ok(hit.len() as u64)
            }
        }
    }
}
fn scope<'a>(s: &'a Sel, tabs: &'a [Rc<Table>], h: &[Option<usize>], outer: &Scope<'a>) -> Scope<'a> {
    let mut v = outer.clone();
    for (k, r) in h.iter().enumerate() {
        v.push((&s.from[k].alias, &tabs[k], r.map(|r| &tabs[k].rows[r][..])));
    }
    v
}
fn less(a: &[Value], b: &[Value], o: &[(Ex, bool)]) -> bool {
    for i in 0..a.len() {
        let c = order(&a[i], &b[i]);
        if c.is_ne() {
            return c.is_lt() != o[i].1;
        }
    }
    false
}
