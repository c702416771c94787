//! Prices of functions and the rules that make them computable.
use crate::*;
use std::rc::Rc;

/// The price of an instruction depends on its position, the price of an import on its name.
struct Prices(Vec<usize>, usize);
impl PriceResolver for Prices {
    fn op_price(&self, op: &Op) -> usize {
        self.0[op.offset()]
    }
    fn import_price(&self, i: (&str, &str)) -> usize {
        vp::check(i == ("svm", "host"), "the name of an import");
        self.1
    }
}
fn price(n: &str) -> usize {
    vp::u16(n) as usize
}
/// Not a jump and not the start or end of a branch: these are free.
fn priced(i: &I) -> bool {
    !matches!(i, I::If(_) | I::Else | I::End | I::Br(_) | I::BrIf(_) | I::BrTable(_) | I::Return | I::Unreachable)
}
fn max(a: usize, b: usize) -> usize {
    std::cmp::max(a, b)
}
/// The most expensive execution, from the rules of WebAssembly.
fn dearest(code: &[I], cost: impl Fn(usize, &I) -> usize) -> usize {
    let n = code.len();
    // for every instruction: the scopes it is in, innermost last, as the positions of their ends
    let mut ends = vec![0; n];
    let mut elses = vec![None; n];
    let mut open = vec![];
    let mut owner = vec![vec![]; n];
    for (i, op) in code.iter().enumerate() {
        if let I::Else = op {
            elses[*open.last().unwrap()] = Some(i);
        }
        if let I::End = op {
            if let Some(o) = open.pop() {
                ends[o] = i;
            }
        }
        owner[i] = open.clone();
        if matches!(op, I::Block(_) | I::If(_)) {
            open.push(i);
        }
    }
    let mut best = vec![0; n + 1];
    for i in (0..n).rev() {
        let target = |l: u32| {
            let o = &owner[i];
            if (l as usize) < o.len() { best[ends[o[o.len() - 1 - l as usize]]] } else { 0 }
        };
        let next = best[i + 1];
        let rest = match &code[i] {
            I::If(_) => max(next, elses[i].map_or(best[ends[i]], |e| best[e + 1])),
            I::Else => best[ends[*owner[i].last().unwrap()]],
            I::Br(l) => target(*l),
            I::BrIf(l) => max(next, target(*l)),
            I::BrTable(t) => t.table.iter().fold(target(t.default), |a, l| max(a, target(*l))),
            I::Return | I::Unreachable => 0,
            _ => next,
        };
        best[i] = rest + cost(i, &code[i]);
    }
    best[0]
}
/// Any well-nested code of `steps` control instructions, each followed by another one; `few`: only if, else, end and jumps.
fn code(steps: usize, calls: usize, few: bool) -> Vec<I> {
    let mut c = vec![I::Nop];
    let mut open: Vec<bool> = vec![];
    for _ in 0..steps {
        let d = open.len();
        let labels = d + 1;
        let k = vp::choose(7 + 2 * labels + calls, "instruction");
        vp::assume(!few || (k != 0 && (k < 4 || k > 6)));
        match k {
            0 => {
                c.push(I::Block(BlockType::NoResult));
                open.push(false);
            }
            1 => {
                c.push(I::If(BlockType::NoResult));
                open.push(true);
            }
            2 => {
                vp::assume(open.last() == Some(&true));
                c.push(I::Else);
                open[d - 1] = false;
            }
            3 => {
                vp::assume(d > 0);
                c.push(I::End);
                open.pop();
            }
            4 => c.push(I::Return),
            5 => c.push(I::Unreachable),
            6 => {
                vp::assume(d > 0);
                c.push(I::BrTable(Box::new(BrTableData { table: Box::new([0, 0]), default: d as u32 })));
            }
            k if k < 7 + labels => c.push(I::Br((k - 7) as u32)),
            k if k < 7 + 2 * labels => c.push(I::BrIf((k - 7 - labels) as u32)),
            k => c.push(I::Call((k - 7 - 2 * labels) as u32)),
        }
        c.push(I::Nop);
    }
    for _ in 0..open.len() {
        c.push(I::End);
    }
    c.push(I::End);
    c
}
fn prices(steps: usize, few: bool) {
    price_of(code(steps, 0, few));
    vp::reach("end");
}
fn price_of(c: Vec<I>) {
    let p = c.iter().map(|_| price("price")).collect();
    price_with(c, p);
}
fn price_with(c: Vec<I>, p: Vec<usize>) {
    let mut program = Program::default();
    program.add_func(FuncIndex(0), c.clone());
    vp::check(validate_wasm(&program, false).is_ok(), "a program without loops and calls is refused");
    let want = dearest(&c, |i, op| if priced(op) { p[i] } else { 0 });
    let got = vp::no_panic("the price of a function", || ProgramPricing::new(Rc::new(Prices(p, 0))).run(&program).unwrap());
    vp::check(got.get(FuncIndex(0)) == want, "the price of a function is not that of its most expensive execution");
}
/// Function 0 is imported; 1, 2 and 3 call each other.
fn called(steps: usize) {
    let c = code(steps, 3, false);
    let p: Vec<usize> = c.iter().map(|_| price("price")).collect();
    let host = price("host");
    let mut imports = Imports::new();
    imports.insert("svm", "host", FuncIndex(0));
    let mut program = Program::default();
    program.set_imports(imports);
    // main is 1 or 2, its helper the other one
    let main = 1 + vp::choose(2, "main") as u32;
    let c: Vec<I> = c.into_iter().map(|i| match i {
        I::Call(1) => I::Call(3 - main),
        I::Call(2) => I::Call(3),
        i => i,
    }).collect();
    let helper = vec![I::Nop, I::Call(0), I::Call(3), I::End];
    let leaf = vec![I::If(BlockType::NoResult), I::Nop, I::Else, I::Nop, I::End, I::End];
    for i in 1..4 {
        let code = if i == main { &c } else if i == 3 { &leaf } else { &helper };
        program.add_func(FuncIndex(i), code.clone());
    }
    vp::check(validate_wasm(&program, true).is_ok(), "a program without loops and recursion is refused");
    let of_leaf = max(*p.get(1).unwrap_or(&0), *p.get(3).unwrap_or(&0));
    vp::assume(p.len() > 3);
    let of_helper = p[0] + host + of_leaf;
    let want = dearest(&c, |i, op| match op {
        I::Call(0) => host,
        I::Call(3) => of_leaf,
        I::Call(_) => of_helper,
        op if priced(op) => p[i],
        _ => 0,
    });
    let got = vp::no_panic("the price of a function", || ProgramPricing::new(Rc::new(Prices(p, host))).run(&program).unwrap());
    vp::check(got.get(FuncIndex(3)) == of_leaf && got.get(FuncIndex(3 - main)) == of_helper, "the price of a called function");
    vp::check(got.get(FuncIndex(main)) == want, "the price of a function that calls others");
    vp::reach("end");
}
/// The price of an import depends on its name.
struct ByName(Vec<usize>, [usize; 3]);
impl PriceResolver for ByName {
    fn op_price(&self, op: &Op) -> usize {
        self.0[op.offset()]
    }
    fn import_price(&self, i: (&str, &str)) -> usize {
        match i {
            ("m", "a") => self.1[0],
            ("m", "b") => self.1[1],
            ("n", "a") => self.1[2],
            _ => {
                vp::check(false, "the name of an import");
                0
            }
        }
    }
}
fn rules(funcs: usize, calls: usize) {
    let mut imports = Imports::new();
    imports.insert("svm", "host", FuncIndex(0));
    let mut program = Program::default();
    program.set_imports(imports);
    let mut direct = vec![vec![false; funcs + 1]; funcs + 1];
    for f in 1..=funcs {
        let mut c = vec![];
        for _ in 0..calls {
            let t = vp::choose(funcs + 2, "call");
            if t <= funcs {
                direct[f][t] = t > 0;
                c.push(I::Call(t as u32));
            }
        }
        c.push(I::End);
        program.add_func(FuncIndex(f as u32), c);
    }
    let mut reach = direct.clone();
    for k in 0..=funcs {
        for i in 0..=funcs {
            for j in 0..=funcs {
                if reach[i][k] && reach[k][j] {
                    reach[i][j] = true;
                }
            }
        }
    }
    let cyclic = (0..=funcs).any(|i| reach[i][i]);
    let own = (0..=funcs).any(|i| direct[i][i]);
    let r = vp::no_panic("validation", || validate_wasm(&program, vp::choose(2, "cycles") == 0));
    vp::check(r.is_err() == cyclic, "a program is refused iff it is recursive");
    match r {
        Ok(()) => {
            vp::no_panic("the price of a valid program", || ProgramPricing::new(Rc::new(Prices(vec![1; 9], 1))).run(&program).unwrap());
            vp::reach("valid");
        }
        Err(FixedGasError::RecursiveCall { .. }) => vp::check(own, "the reason of a refusal"),
        Err(FixedGasError::CallCycle(GraphCycles::HasCycles(c))) => {
            // an example of a cycle, if there is one
            for w in c.windows(2) {
                vp::check(direct[w[0].0 as usize][w[1].0 as usize], "a cycle of calls that is none");
            }
            vp::check(c.is_empty() || reach[c[c.len() - 1].0 as usize][c[c.len() - 1].0 as usize], "a cycle of calls that is none");
            vp::reach("cycle");
        }
        Err(_) => vp::check(false, "the reason of a refusal"),
    }
}
vp::entry! {
    fn h_gas_price() {
        prices(4, false)
    }
    fn h_gas_price_deep() {
        prices(5, true)
    }
    fn h_gas_calls() {
        called(3)
    }
    fn h_gas_rules() {
        rules(3, 2)
    }
    fn h_gas_cycles() {
        rules(4, 1)
    }
    fn h_gas_cycles_deep() {
        rules(5, 1)
    }
    /// A jump out of any number of nested scopes of any kinds.
    fn h_gas_nested() {
        let kinds: Vec<usize> = (0..4).map(|_| vp::choose(3, "scope")).collect();
        let mut c = vec![I::Nop];
        for k in &kinds {
            c.push(if *k == 0 { I::Block(BlockType::NoResult) } else { I::If(BlockType::NoResult) });
            c.push(I::Nop);
        }
        match vp::choose(11, "jump") {
            0 => {}
            l if l < 6 => c.push(I::Br(l as u32 - 1)),
            l => c.push(I::BrIf(l as u32 - 6)),
        }
        c.push(I::Nop);
        for k in kinds.iter().rev() {
            if *k == 2 {
                c.push(I::Else);
                c.push(I::Nop);
            }
            c.push(I::End);
            c.push(I::Nop);
        }
        c.push(I::End);
        let p = c.iter().map(|_| vp::bool("price") as usize).collect();
        price_with(c, p);
        vp::reach("end");
    }
    /// Jumps over tables of any labels.
    fn h_gas_tables() {
        let n = vp::choose(4, "labels");
        let table: Vec<u32> = (0..n).map(|_| vp::choose(4, "label") as u32).collect();
        let default = vp::choose(4, "default") as u32;
        let mut c = vec![];
        for _ in 0..3 {
            c.push(I::Block(BlockType::NoResult));
        }
        c.push(I::BrTable(Box::new(BrTableData { table: table.into_boxed_slice(), default })));
        for _ in 0..3 {
            c.push(I::Nop);
            c.push(I::End);
        }
        c.push(I::Nop);
        c.push(I::End);
        price_of(c);
        vp::reach("end");
    }
    /// Whole modules: calls of imported functions, among imports of other kinds.
    fn h_gas_modules() {
        use crate::module::*;
        let kinds = [vp::choose(4, "kind"), vp::choose(4, "kind"), vp::choose(4, "kind")];
        let names = [["m", "a"], ["m", "b"], ["n", "a"]];
        let mut m = HEADER.to_vec();
        section(&mut m, 1, &[vec![0x60, 0, 0]]);
        let mut imports = vec![];
        let mut cost = vec![];
        let host = [price("host"), price("host"), price("host")];
        for i in 0..3 {
            let mut e = vec![1, names[i][0].as_bytes()[0], 1, names[i][1].as_bytes()[0], kinds[i] as u8];
            e.extend(match kinds[i] {
                0 => vec![0],
                1 => vec![0x70, 0, 1],
                2 => vec![0, 1],
                _ => vec![0x7f, 0],
            });
            if kinds[i] == 0 {
                cost.push(host[i]);
            }
            imports.push(e);
        }
        section(&mut m, 2, &imports);
        section(&mut m, 3, &[vec![0], vec![0]]);
        let n = cost.len();
        // the first function calls anything but itself
        let target = vp::choose(n + 1, "target");
        let callee = if target == n { n + 1 } else { target };
        section(&mut m, 10, &[body(&[0x10, callee as u8, 1, 0x0b]), body(&[1, 1, 0x0b])]);
        let p: Vec<usize> = (0..4).map(|_| price("price")).collect();
        let second = p[0] + p[1];
        cost.push(second);
        let got = vp::no_panic("the price of a function", || {
            let program = Program::new(&m, false).unwrap();
            vp::check(validate_wasm(&program, true).is_ok(), "a program without loops and recursion is refused");
            ProgramPricing::new(Rc::new(ByName(p.clone(), host))).run(&program).unwrap()
        });
        vp::check(got.get(FuncIndex(n as u32 + 1)) == second, "the price of a function of a module");
        vp::check(got.get(FuncIndex(n as u32)) == cost[target] + p[1], "the price of a call of an imported function");
        vp::reach("end");
    }
    /// Instructions whose price cannot be known.
    fn h_gas_forbidden() {
        let bad = vp::choose(3, "instruction");
        let at = vp::choose(4, "position");
        let f = vp::choose(3, "function");
        let mut program = Program::default();
        for i in 0..3u32 {
            let mut c = vec![I::Nop, I::Block(BlockType::NoResult), I::End, I::End];
            if i as usize == f {
                c.insert(at, match bad {
                    0 => I::Loop(BlockType::NoResult),
                    1 => I::CallIndirect(vp::u32("type"), vp::u8("table")),
                    _ => I::Nop,
                });
            }
            program.add_func(FuncIndex(i), c);
        }
        let r = validate_wasm(&program, false);
        vp::check(matches!((bad, r), (0, Err(FixedGasError::LoopNotAllowed)) | (1, Err(FixedGasError::CallIndirectNotAllowed)) | (2, Ok(()))), "loops and indirect calls are refused");
        vp::reach("end");
    }
}
