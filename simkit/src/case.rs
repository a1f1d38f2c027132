//! A case (workload + schedule + faults) is a tree of generic nodes with a textual form: the
//! replay file. Interpreters accept every tree (indices are taken modulo what exists), so the
//! minimiser may delete any node.

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub op: String,
    pub args: Vec<i64>,
    pub kids: Vec<Node>,
}

pub fn node(op: &str, args: &[i64]) -> Node {
    Node { op: op.to_string(), args: args.to_vec(), kids: vec![] }
}

pub fn tree(op: &str, args: &[i64], kids: Vec<Node>) -> Node {
    Node { op: op.to_string(), args: args.to_vec(), kids }
}

impl Node {
    pub fn a(&self, i: usize) -> i64 {
        self.args.get(i).copied().unwrap_or(0)
    }
    /// Argument i as an index into something of length n (n > 0).
    pub fn ix(&self, i: usize, n: usize) -> usize {
        (self.a(i).unsigned_abs() as usize) % n.max(1)
    }
    pub fn kid(&self, op: &str) -> Option<&Node> {
        self.kids.iter().find(|k| k.op == op)
    }
    pub fn get(&self, op: &str, dflt: i64) -> i64 {
        self.kid(op).and_then(|k| k.args.first().copied()).unwrap_or(dflt)
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    fn write(&self, out: &mut String, indent: usize) {
        if indent > 0 {
            out.push('\n');
            for _ in 0..indent {
                out.push(' ');
            }
        }
        out.push('(');
        out.push_str(&self.op);
        for a in &self.args {
            out.push(' ');
            out.push_str(&a.to_string());
        }
        for k in &self.kids {
            k.write(out, indent + 1);
        }
        out.push(')');
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s
    }
    /// One-line form.
    pub fn to_line(&self) -> String {
        self.to_text().split_whitespace().collect::<Vec<_>>().join(" ")
    }
    pub fn parse(text: &str) -> Option<Node> {
        let mut toks = vec![];
        for line in text.lines() {
            let line = line.split(';').next().unwrap_or("");
            let mut cur = String::new();
            for c in line.chars() {
                match c {
                    '(' | ')' => {
                        if !cur.is_empty() {
                            toks.push(std::mem::take(&mut cur));
                        }
                        toks.push(c.to_string());
                    }
                    c if c.is_whitespace() => {
                        if !cur.is_empty() {
                            toks.push(std::mem::take(&mut cur));
                        }
                    }
                    c => cur.push(c),
                }
            }
            if !cur.is_empty() {
                toks.push(cur);
            }
        }
        let mut pos = 0;
        Self::parse_at(&toks, &mut pos)
    }
    fn parse_at(t: &[String], pos: &mut usize) -> Option<Node> {
        if t.get(*pos)? != "(" {
            return None;
        }
        *pos += 1;
        let op = t.get(*pos)?.clone();
        *pos += 1;
        let mut n = Node { op, args: vec![], kids: vec![] };
        loop {
            let tok = t.get(*pos)?;
            if tok == ")" {
                *pos += 1;
                return Some(n);
            } else if tok == "(" {
                n.kids.push(Self::parse_at(t, pos)?);
            } else {
                n.args.push(tok.parse().ok()?);
                *pos += 1;
            }
        }
    }

    /// Paths of all nodes except the root, in pre-order.
    fn paths(&self) -> Vec<Vec<usize>> {
        fn go(n: &Node, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            for (i, k) in n.kids.iter().enumerate() {
                p.push(i);
                out.push(p.clone());
                go(k, p, out);
                p.pop();
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
    fn at_mut(&mut self, p: &[usize]) -> &mut Node {
        let mut n = self;
        for &i in p {
            n = &mut n.kids[i];
        }
        n
    }
    fn at(&self, p: &[usize]) -> &Node {
        let mut n = self;
        for &i in p {
            n = &n.kids[i];
        }
        n
    }
}

/// Greedy delta debugging: `fails` must be a pure function of the candidate.
pub fn minimise(case: &Node, mut fails: impl FnMut(&Node) -> bool, mut budget_left: impl FnMut() -> bool) -> Node {
    let mut best = case.clone();
    loop {
        let before = best.clone();
        // 1. remove runs of children of the root and of every inner node, large runs first.
        let mut inner: Vec<Vec<usize>> = vec![vec![]];
        inner.extend(best.paths());
        for p in inner {
            if p.iter().scan(&best, |n, &i| { let k = n.kids.get(i)?; *n = k; Some(()) }).count() != p.len() {
                continue;
            }
            let mut chunk = best.at(&p).kids.len();
            while chunk > 0 {
                let mut i = 0;
                loop {
                    if !valid(&best, &p) {
                        break;
                    }
                    let n = best.at(&p).kids.len();
                    if i >= n {
                        break;
                    }
                    if !budget_left() {
                        return best;
                    }
                    let mut cand = best.clone();
                    let end = (i + chunk).min(n);
                    cand.at_mut(&p).kids.drain(i..end);
                    if fails(&cand) {
                        best = cand;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // 2. replace a node by one of its children.
        for p in best.paths() {
            if !valid(&best, &p) {
                continue;
            }
            let kids = best.at(&p).kids.clone();
            for k in kids {
                if !budget_left() {
                    return best;
                }
                let mut cand = best.clone();
                *cand.at_mut(&p) = k;
                if cand != best && fails(&cand) {
                    best = cand;
                    break;
                }
            }
        }
        // 3. shrink arguments.
        let mut all = vec![vec![]];
        all.extend(best.paths());
        for p in all {
            if !valid(&best, &p) {
                continue;
            }
            for j in 0..best.at(&p).args.len() {
                let v = best.at(&p).args[j];
                let mut tries = vec![0, 1, v / 2, v - v.signum()];
                tries.retain(|t| t.abs() < v.abs() || (*t == 0 && v != 0));
                tries.dedup();
                for t in tries {
                    if !budget_left() {
                        return best;
                    }
                    let mut cand = best.clone();
                    cand.at_mut(&p).args[j] = t;
                    if fails(&cand) {
                        best = cand;
                        break;
                    }
                }
            }
        }
        if best == before {
            return best;
        }
    }
}

fn valid(n: &Node, p: &[usize]) -> bool {
    let mut n = n;
    for &i in p {
        match n.kids.get(i) {
            Some(k) => n = k,
            None => return false,
        }
    }
    true
}
