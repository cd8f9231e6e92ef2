//! A small stand-in for the proc-macro of rust-peg: the part of its grammar language that
//! compiler/src/parser.rs uses, with the same meaning (ordered choice, greedy repetition, precedence climbing).
use proc_macro2::{Delimiter, Group, Ident, Literal, TokenStream, TokenTree};
use quote::{format_ident, quote};

#[derive(Debug, Clone)]
enum Ex {
    Choice(Vec<Ex>),
    Seq(Vec<(Option<Ident>, Ex)>, Option<(bool, TokenStream)>),
    Lit(Literal),
    Class(TokenStream),
    Call(Ident, Vec<Arg>),
    Method(Ident, TokenStream),
    Opt(Box<Ex>),
    Rep(Box<Ex>, usize, Option<usize>, Option<Box<Ex>>),
    And(Box<Ex>),
    Not(Box<Ex>),
    Slice(Box<Ex>),
    Quiet(Box<Ex>),
    Expected(TokenStream),
    Position,
    Prec(Vec<Vec<(Vec<(Option<Ident>, Ex)>, TokenStream)>>),
    Mark(bool),
}

#[derive(Debug, Clone)]
enum Arg {
    Rule(Ex),
    Code(TokenStream),
}

struct P {
    t: Vec<TokenTree>,
    i: usize,
}

impl P {
    fn new(s: TokenStream) -> Self {
        P { t: s.into_iter().collect(), i: 0 }
    }
    fn peek(&self) -> Option<&TokenTree> {
        self.t.get(self.i)
    }
    fn at(&self, n: usize) -> Option<&TokenTree> {
        self.t.get(self.i + n)
    }
    fn done(&self) -> bool {
        self.i >= self.t.len()
    }
    fn next(&mut self) -> TokenTree {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn punct_at(&self, n: usize, c: char) -> bool {
        matches!(self.at(n), Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    fn punct(&mut self, c: char) -> bool {
        let r = self.punct_at(0, c);
        if r {
            self.i += 1;
        }
        r
    }
    fn group_at(&self, n: usize, d: Delimiter) -> Option<Group> {
        match self.at(n) {
            Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g.clone()),
            _ => None,
        }
    }
    fn group(&mut self, d: Delimiter) -> Option<Group> {
        let g = self.group_at(0, d);
        if g.is_some() {
            self.i += 1;
        }
        g
    }
    fn word_at(&self, n: usize, w: &str) -> bool {
        matches!(self.at(n), Some(TokenTree::Ident(i)) if i == w)
    }
    fn ident(&mut self) -> Ident {
        match self.next() {
            TokenTree::Ident(i) => i,
            t => panic!("expected an identifier, found {t}"),
        }
    }

    fn choice(&mut self) -> Ex {
        let mut alts = vec![self.seq()];
        while self.punct('/') {
            alts.push(self.seq());
        }
        if alts.len() == 1 {
            alts.pop().unwrap()
        } else {
            Ex::Choice(alts)
        }
    }

    fn element(&mut self) -> (Option<Ident>, Ex) {
        let label = match (self.peek(), self.punct_at(1, ':')) {
            (Some(TokenTree::Ident(i)), true) if !self.punct_at(2, ':') => {
                let i = i.clone();
                self.i += 2;
                Some(i)
            }
            _ => None,
        };
        (label, self.suffixed())
    }

    /// whether what follows begins another rule or item of the grammar
    fn ends(&self) -> bool {
        self.done()
            || self.punct_at(0, '/')
            || (self.word_at(0, "rule") && matches!(self.at(1), Some(TokenTree::Ident(_))) && self.group_or_angle(2))
            || (self.word_at(0, "pub") && (self.word_at(1, "rule") || self.group_at(1, Delimiter::Parenthesis).is_some() && self.word_at(2, "rule")))
            || (self.punct_at(0, '#') && self.group_at(1, Delimiter::Bracket).is_some())
            || (self.punct_at(0, '-') && self.punct_at(1, '-'))
    }
    fn group_or_angle(&self, n: usize) -> bool {
        self.group_at(n, Delimiter::Parenthesis).is_some() || self.punct_at(n, '<')
    }

    fn seq(&mut self) -> Ex {
        let mut els = vec![];
        loop {
            if let Some(g) = self.group(Delimiter::Brace) {
                return Ex::Seq(els, Some(action(g)));
            }
            if self.ends() {
                return Ex::Seq(els, None);
            }
            els.push(self.element());
        }
    }

    /// `<n>`, `<n,>`, `<,m>` or `<n,m>`
    fn count(&mut self, min: usize) -> (usize, Option<usize>) {
        if !self.punct('<') {
            return (min, None);
        }
        let (mut from, mut to, mut comma) = (None, None, false);
        while !self.punct('>') {
            if self.punct(',') {
                comma = true;
            } else if let TokenTree::Literal(l) = self.next() {
                let n = l.to_string().parse::<usize>().expect("repeat count");
                if comma {
                    to = Some(n);
                } else {
                    from = Some(n);
                }
            }
        }
        (from.unwrap_or(min), if comma { to } else { from })
    }

    fn suffixed(&mut self) -> Ex {
        let e = self.prefixed();
        if self.punct('?') {
            return Ex::Opt(Box::new(e));
        }
        if self.punct_at(0, '*') && self.punct_at(1, '*') {
            self.i += 2;
            let (min, max) = self.count(0);
            let sep = self.primary();
            return Ex::Rep(Box::new(e), min, max, Some(Box::new(sep)));
        }
        if self.punct_at(0, '+') && self.punct_at(1, '+') {
            self.i += 2;
            let sep = self.primary();
            return Ex::Rep(Box::new(e), 1, None, Some(Box::new(sep)));
        }
        if self.punct('*') {
            let (min, max) = self.count(0);
            return Ex::Rep(Box::new(e), min, max, None);
        }
        if self.punct('+') {
            return Ex::Rep(Box::new(e), 1, None, None);
        }
        e
    }

    fn prefixed(&mut self) -> Ex {
        if self.punct('$') {
            return Ex::Slice(Box::new(self.prefixed()));
        }
        if self.punct('!') {
            return Ex::Not(Box::new(self.prefixed()));
        }
        if self.punct('&') {
            return Ex::And(Box::new(self.prefixed()));
        }
        self.primary()
    }

    fn primary(&mut self) -> Ex {
        if self.punct('@') {
            return Ex::Mark(false);
        }
        if self.punct_at(0, '#') && self.punct_at(1, '#') {
            self.i += 2;
            let name = self.ident();
            let g = self.group(Delimiter::Parenthesis).expect("arguments of a method");
            return Ex::Method(name, g.stream());
        }
        if let Some(g) = self.group(Delimiter::Parenthesis) {
            let mut p = P::new(g.stream());
            if p.punct_at(0, '@') && p.t.len() == 1 {
                return Ex::Mark(true);
            }
            let e = p.choice();
            assert!(p.done(), "unexpected {}", p.next());
            return e;
        }
        if let Some(g) = self.group(Delimiter::Bracket) {
            return Ex::Class(g.stream());
        }
        match self.next() {
            TokenTree::Literal(l) => Ex::Lit(l),
            TokenTree::Ident(i) => {
                if self.punct_at(0, '!') && matches!(self.at(1), Some(TokenTree::Group(_))) {
                    let body = match self.at(1) {
                        Some(TokenTree::Group(g)) => g.stream(),
                        _ => unreachable!(),
                    };
                    match i.to_string().as_str() {
                        "quiet" => {
                            self.i += 2;
                            return Ex::Quiet(Box::new(P::new(body).choice()));
                        }
                        "expected" => {
                            self.i += 2;
                            return Ex::Expected(body);
                        }
                        "position" => {
                            self.i += 2;
                            return Ex::Position;
                        }
                        "precedence" => {
                            self.i += 2;
                            return prec(body);
                        }
                        // e.g. `_ !x`: a call followed by a negation
                        _ => {}
                    }
                }
                let args = if i == "_" {
                    self.group_at(0, Delimiter::Parenthesis).filter(|g| g.stream().is_empty()).map(|_| ()).map(|()| {
                        self.i += 1;
                    });
                    vec![]
                } else {
                    args(self.group(Delimiter::Parenthesis).unwrap_or_else(|| panic!("{i} is no call")).stream())
                };
                Ex::Call(i, args)
            }
            t => panic!("unexpected {t} in a rule"),
        }
    }
}

fn action(g: Group) -> (bool, TokenStream) {
    let mut p = P::new(g.stream());
    if p.punct('?') {
        (true, p.t[p.i..].iter().cloned().collect())
    } else {
        (false, g.stream())
    }
}

/// arguments separated by commas outside of angle brackets
fn args(s: TokenStream) -> Vec<Arg> {
    let mut out = vec![];
    let mut p = P::new(s);
    while !p.done() {
        if p.punct('<') {
            let mut depth = 1;
            let from = p.i;
            while depth > 0 {
                if p.punct_at(0, '<') {
                    depth += 1;
                }
                if p.punct_at(0, '>') {
                    depth -= 1;
                }
                p.i += 1;
            }
            let mut inner = P { t: p.t[from..p.i - 1].to_vec(), i: 0 };
            out.push(Arg::Rule(inner.choice()));
        } else {
            let from = p.i;
            while !p.done() && !p.punct_at(0, ',') {
                p.i += 1;
            }
            out.push(Arg::Code(p.t[from..p.i].iter().cloned().collect()));
        }
        p.punct(',');
    }
    out
}

fn prec(s: TokenStream) -> Ex {
    let mut p = P::new(s);
    let mut levels = vec![vec![]];
    while !p.done() {
        if p.punct_at(0, '-') && p.punct_at(1, '-') {
            p.i += 2;
            levels.push(vec![]);
            continue;
        }
        let mut els = vec![];
        let act = loop {
            if let Some(g) = p.group(Delimiter::Brace) {
                break action(g);
            }
            els.push(p.element());
        };
        assert!(!act.0, "a conditional action in precedence!");
        levels.last_mut().unwrap().push((els, act.1));
    }
    Ex::Prec(levels)
}

struct Gen {
    params: Vec<Ident>,
}

impl Gen {
    fn name(&self, i: &Ident) -> Ident {
        format_ident!("__parse_{}", i)
    }

    fn label(l: &Option<Ident>) -> TokenStream {
        l.as_ref().map_or(quote!(_), |i| quote!(#i))
    }

    fn seq_then(&self, els: &[(Option<Ident>, Ex)], last: TokenStream) -> TokenStream {
        match els.split_first() {
            None => last,
            Some(((label, e), rest)) => {
                let code = self.ex(e, label.is_some());
                let pat = Self::label(label);
                let rest = self.seq_then(rest, last);
                quote! {
                    match { #code } {
                        ::peg::RuleResult::Matched(__pos, #pat) => { #rest }
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                    }
                }
            }
        }
    }

    fn ex(&self, e: &Ex, used: bool) -> TokenStream {
        let params = &self.params;
        match e {
            Ex::Choice(alts) => {
                let mut code = quote!(::peg::RuleResult::Failed);
                for a in alts.iter().rev() {
                    let one = self.ex(a, used);
                    code = quote! {
                        match { #one } {
                            ::peg::RuleResult::Matched(__p, __v) => ::peg::RuleResult::Matched(__p, __v),
                            ::peg::RuleResult::Failed => { #code }
                        }
                    };
                }
                code
            }
            Ex::Seq(els, None) => {
                if els.len() == 1 {
                    self.ex(&els[0].1, used)
                } else {
                    self.seq_then(els, quote!(::peg::RuleResult::Matched(__pos, ())))
                }
            }
            Ex::Seq(els, Some((false, code))) => {
                let res = if used {
                    quote!(::peg::RuleResult::Matched(__pos, (|| { #code })()))
                } else {
                    quote!({ let _ = (|| { #code })(); ::peg::RuleResult::Matched(__pos, ()) })
                };
                self.seq_then(els, res)
            }
            Ex::Seq(els, Some((true, code))) => self.seq_then(
                els,
                quote! {
                    match (|| { #code })() {
                        Ok(__v) => ::peg::RuleResult::Matched(__pos, __v),
                        Err(__expected) => {
                            __err.mark_failure(__pos, __expected);
                            ::peg::RuleResult::Failed
                        }
                    }
                },
            ),
            Ex::Lit(l) => {
                let shown = l.to_string();
                quote! {
                    match ::peg::ParseLiteral::parse_string_literal(__input, __pos, #l) {
                        ::peg::RuleResult::Matched(__p, __v) => ::peg::RuleResult::Matched(__p, __v),
                        ::peg::RuleResult::Failed => {
                            __err.mark_failure(__pos, #shown);
                            ::peg::RuleResult::Failed
                        }
                    }
                }
            }
            Ex::Class(pat) => {
                let shown = format!("[{pat}]");
                // everything but these
                let mut p = P::new(pat.clone());
                let not = p.punct('^');
                let pat: TokenStream = p.t[p.i..].iter().cloned().collect();
                let negated = if not { quote!(!) } else { quote!() };
                let val = if used { quote!(__c) } else { quote!(()) };
                quote! {
                    match __input[__pos..].chars().next() {
                        Some(__c) if #negated matches!(__c, #pat) => ::peg::RuleResult::Matched(__pos + __c.len_utf8(), #val),
                        _ => {
                            __err.mark_failure(__pos, #shown);
                            ::peg::RuleResult::Failed
                        }
                    }
                }
            }
            Ex::Call(name, args) => {
                let fun = self.name(name);
                let mut list = quote!();
                for a in args {
                    let code = match a {
                        Arg::Code(c) => c.clone(),
                        Arg::Rule(e) => {
                            let body = self.ex(e, true);
                            quote!(&|__input, __err: &mut ::peg::error::ErrorState, __pos: usize| { #body })
                        }
                    };
                    list = quote!(#list, #code);
                }
                let call = quote!(#fun(__input, __err, __pos #(, #params)* #list));
                if used {
                    call
                } else {
                    quote! {
                        match #call {
                            ::peg::RuleResult::Matched(__p, _) => ::peg::RuleResult::Matched(__p, ()),
                            ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                        }
                    }
                }
            }
            Ex::Method(name, args) if name.to_string().starts_with("__local_") => {
                let _ = args;
                let n = format_ident!("{}", name.to_string().trim_start_matches("__local_"));
                if used {
                    quote!(#n(__input, __err, __pos))
                } else {
                    quote! {
                        match #n(__input, __err, __pos) {
                            ::peg::RuleResult::Matched(__p, _) => ::peg::RuleResult::Matched(__p, ()),
                            ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                        }
                    }
                }
            }
            Ex::Method(name, args) => quote! {
                match __input.#name(__pos, #args) {
                    ::peg::RuleResult::Matched(__p, __v) => ::peg::RuleResult::Matched(__p, __v),
                    ::peg::RuleResult::Failed => {
                        __err.mark_failure(__pos, "??");
                        ::peg::RuleResult::Failed
                    }
                }
            },
            Ex::Opt(e) => {
                let code = self.ex(e, used);
                let (some, none) = if used { (quote!(Some(__v)), quote!(None)) } else { (quote!(()), quote!(())) };
                let pat = if used { quote!(__v) } else { quote!(_) };
                quote! {
                    match { #code } {
                        ::peg::RuleResult::Matched(__p, #pat) => ::peg::RuleResult::Matched(__p, #some),
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, #none),
                    }
                }
            }
            Ex::Rep(e, min, max, sep) => {
                let code = self.ex(e, used);
                let sep = sep.as_ref().map(|s| {
                    let s = self.ex(s, false);
                    quote! {
                        let __pos = if __n == 0 { __pos } else {
                            match { #s } {
                                ::peg::RuleResult::Matched(__p, _) => __p,
                                ::peg::RuleResult::Failed => break,
                            }
                        };
                    }
                });
                let max = max.map(|m| quote!(if __n >= #m { break; }));
                let (init, pat, push, val) = if used {
                    (quote!(let mut __all = vec![];), quote!(__v), quote!(__all.push(__v);), quote!(__all))
                } else {
                    (quote!(), quote!(_), quote!(), quote!(()))
                };
                quote! {{
                    let mut __at = __pos;
                    let mut __n = 0usize;
                    #init
                    loop {
                        let __pos = __at;
                        #max
                        #sep
                        match { #code } {
                            ::peg::RuleResult::Matched(__p, #pat) => {
                                __at = __p;
                                __n += 1;
                                #push
                            }
                            ::peg::RuleResult::Failed => break,
                        }
                    }
                    if __n >= #min {
                        ::peg::RuleResult::Matched(__at, #val)
                    } else {
                        ::peg::RuleResult::Failed
                    }
                }}
            }
            Ex::And(e) => {
                let code = self.ex(e, used);
                quote! {{
                    __err.suppress_fail += 1;
                    let __res = { #code };
                    __err.suppress_fail -= 1;
                    match __res {
                        ::peg::RuleResult::Matched(_, __v) => ::peg::RuleResult::Matched(__pos, __v),
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                    }
                }}
            }
            Ex::Not(e) => {
                let code = self.ex(e, false);
                quote! {{
                    __err.suppress_fail += 1;
                    let __res = { #code };
                    __err.suppress_fail -= 1;
                    match __res {
                        ::peg::RuleResult::Matched(_, _) => ::peg::RuleResult::Failed,
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, ()),
                    }
                }}
            }
            Ex::Slice(e) => {
                let code = self.ex(e, false);
                quote! {
                    match { #code } {
                        ::peg::RuleResult::Matched(__p, _) => ::peg::RuleResult::Matched(__p, &__input[__pos..__p]),
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                    }
                }
            }
            Ex::Quiet(e) => {
                let code = self.ex(e, used);
                quote! {{
                    __err.suppress_fail += 1;
                    let __res = { #code };
                    __err.suppress_fail -= 1;
                    __res
                }}
            }
            Ex::Expected(s) => quote! {{
                __err.mark_failure(__pos, #s);
                ::peg::RuleResult::Failed
            }},
            Ex::Position => quote!(::peg::RuleResult::Matched(__pos, __pos)),
            Ex::Mark(_) => panic!("a precedence marker outside of precedence!"),
            Ex::Prec(levels) => {
                let mut pre = vec![];
                let mut lev = vec![];
                for (n, ops) in levels.iter().enumerate() {
                    let n = n as i32;
                    let mut post = vec![];
                    for (els, act) in ops {
                        let first = &els[0];
                        let last = &els[els.len() - 1];
                        let l = Self::label(&first.0);
                        let r = Self::label(&last.0);
                        let act = quote!((|| { #act })());
                        match (&first.1, &last.1) {
                            (Ex::Mark(lm), Ex::Mark(rm)) => {
                                let min = match (lm, rm) {
                                    (true, false) => n + 1,
                                    (false, true) => n,
                                    _ => panic!("an operator needs one (@) and one @"),
                                };
                                post.push(self.seq_then(
                                    &els[1..els.len() - 1],
                                    quote! {
                                        match __climb(__input, __err, __pos, #min #(, #params)*) {
                                            ::peg::RuleResult::Matched(__pos, #r) => {
                                                let #l = __left.take().expect("left operand");
                                                __left = Some(#act);
                                                ::peg::RuleResult::Matched(__pos, ())
                                            }
                                            ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                        }
                                    },
                                ));
                            }
                            (Ex::Mark(_), _) => post.push(self.seq_then(
                                &els[1..],
                                quote! {{
                                    let #l = __left.take().expect("left operand");
                                    __left = Some(#act);
                                    ::peg::RuleResult::Matched(__pos, ())
                                }},
                            )),
                            (_, Ex::Mark(rm)) => {
                                let min = if *rm { n } else { n + 1 };
                                pre.push(self.seq_then(
                                    &els[..els.len() - 1],
                                    quote! {
                                        match __climb(__input, __err, __pos, #min #(, #params)*) {
                                            ::peg::RuleResult::Matched(__pos, #r) => ::peg::RuleResult::Matched(__pos, #act),
                                            ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                                        }
                                    },
                                ));
                            }
                            _ => pre.push(self.seq_then(els, quote!(::peg::RuleResult::Matched(__pos, #act)))),
                        }
                    }
                    if !post.is_empty() {
                        lev.push(quote! {
                            if #n >= __min {
                                #(
                                    if let ::peg::RuleResult::Matched(__p, ()) = { #post } {
                                        __at = __p;
                                        continue;
                                    }
                                )*
                            }
                        });
                    }
                }
                // the caller of this expression supplies the type and the parameters of __climb
                quote! {{
                    @CLIMB {
                        let mut __at;
                        let mut __left;
                        '__first: {
                            #(
                                if let ::peg::RuleResult::Matched(__p, __v) = { #pre } {
                                    __at = __p;
                                    __left = Some(__v);
                                    break '__first;
                                }
                            )*
                            return ::peg::RuleResult::Failed;
                        }
                        loop {
                            let __pos = __at;
                            #(#lev)*
                            return ::peg::RuleResult::Matched(__at, __left.expect("operand"));
                        }
                    }
                }}
            }
        }
    }
}

#[proc_macro]
pub fn parser(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let mut p = P::new(input.into());
    let vis: TokenStream = if p.word_at(0, "pub") { p.next().into() } else { quote!() };
    assert!(p.word_at(0, "grammar"));
    p.i += 1;
    let gname = p.ident();
    let gargs = p.group(Delimiter::Parenthesis).expect("parameters of the grammar").stream();
    let mut params = vec![];
    {
        let mut a = P::new(gargs.clone());
        while !a.done() {
            params.push(a.ident());
            while !a.done() && !a.punct(',') {
                a.i += 1;
            }
        }
    }
    assert!(p.word_at(0, "for") && p.word_at(1, "str"), "only grammars for str");
    p.i += 2;
    let gargs = if gargs.is_empty() { quote!() } else { quote!(, #gargs) };
    let body = p.group(Delimiter::Brace).expect("rules").stream();
    let mut p = P::new(body);
    let g = Gen { params };
    let params = &g.params;
    let mut items = quote!();
    while !p.done() {
        if p.word_at(0, "use") {
            let from = p.i;
            while !p.punct(';') {
                p.i += 1;
            }
            let item: TokenStream = p.t[from..p.i].iter().cloned().collect();
            items = quote!(#items #item);
            continue;
        }
        while p.punct_at(0, '#') {
            p.i += 2;
        }
        let public = p.word_at(0, "pub");
        if public {
            p.i += 1;
            p.group(Delimiter::Parenthesis);
        }
        assert!(p.word_at(0, "rule"), "expected a rule, found {}", p.next());
        p.i += 1;
        let name = p.ident();
        let mut generics = quote!();
        if p.punct('<') {
            while !p.punct('>') {
                let t = p.next();
                generics = quote!(#generics #t);
            }
            generics = quote!(, #generics);
        }
        let rargs = p.group(Delimiter::Parenthesis).expect("parameters of a rule").stream();
        let mut fargs = quote!();
        {
            let mut a = P::new(rargs);
            while !a.done() {
                let n = a.ident();
                assert!(a.punct(':'));
                let mut depth = 0;
                let from = a.i;
                while !a.done() && (depth > 0 || !a.punct_at(0, ',')) {
                    if a.punct_at(0, '<') {
                        depth += 1;
                    }
                    if a.punct_at(0, '>') {
                        depth -= 1;
                    }
                    a.i += 1;
                }
                let ty: Vec<TokenTree> = a.t[from..a.i].to_vec();
                a.punct(',');
                let is_rule = matches!(&ty[0], TokenTree::Ident(i) if i == "rule");
                if is_rule {
                    let inner: TokenStream = ty[2..ty.len() - 1].iter().cloned().collect();
                    let fname = format_ident!("__parse_{}", n);
                    fargs = quote!(#fargs, #n: &dyn Fn(&'input str, &mut ::peg::error::ErrorState, usize) -> ::peg::RuleResult<#inner>);
                    let _ = fname;
                } else {
                    let ty: TokenStream = ty.into_iter().collect();
                    fargs = quote!(#fargs, #n: #ty);
                }
            }
        }
        let mut ret = None;
        if p.punct_at(0, '-') && p.punct_at(1, '>') {
            p.i += 2;
            let from = p.i;
            while !p.punct_at(0, '=') {
                p.i += 1;
            }
            ret = Some(p.t[from..p.i].iter().cloned().collect::<TokenStream>());
        }
        assert!(p.punct('='), "expected = in rule {name}");
        let e = p.choice();
        let used = ret.is_some();
        let ty = ret.unwrap_or(quote!(()));
        let fname = g.name(&name);
        // calls of rules given as parameters
        let local: Vec<Ident> = locals(&fargs);
        let e = subst(e, &local);
        let code = match &e {
            Ex::Seq(els, None) if els.len() == 1 && matches!(els[0].1, Ex::Prec(_)) => {
                let inner = g.ex(&els[0].1, true);
                let inner = climb(inner);
                quote! {
                    fn __climb<'input>(__input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize, __min: i32 #gargs) -> ::peg::RuleResult<#ty> #inner
                    __climb(__input, __err, __pos, 0 #(, #params)*)
                }
            }
            e => {
                let c = g.ex(e, used);
                if used { c } else {
                    quote! {
                        match { #c } {
                            ::peg::RuleResult::Matched(__p, _) => ::peg::RuleResult::Matched(__p, ()),
                            ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                        }
                    }
                }
            }
        };
        items = quote! {
            #items
            #[allow(unused, non_snake_case, clippy::all)]
            fn #fname<'input #generics>(__input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize #gargs #fargs) -> ::peg::RuleResult<#ty> {
                #code
            }
        };
        if public {
            items = quote! {
                #items
                #[allow(unused, non_snake_case, clippy::all)]
                pub fn #name<'input #generics>(__input: &'input str #gargs #fargs) -> ::std::result::Result<#ty, ::peg::error::ParseError<::peg::str::LineCol>> {
                    let mut __state = ::peg::error::ErrorState::new();
                    for __pass in 0..2 {
                        let __err = &mut __state;
                        match #fname(__input, __err, 0 #(, #params)*) {
                            ::peg::RuleResult::Matched(__pos, __v) if __pos == __input.len() => return Ok(__v),
                            ::peg::RuleResult::Matched(__pos, _) => __err.mark_failure(__pos, "EOF"),
                            ::peg::RuleResult::Failed => {}
                        }
                        __state.reparse_for_error();
                    }
                    Err(__state.into_parse_error(__input))
                }
            };
        }
    }
    let out = quote! {
        #vis mod #gname {
            #[allow(unused_imports)]
            use super::*;
            #items
        }
    };
    out.into()
}

fn locals(fargs: &TokenStream) -> Vec<Ident> {
    let p = P::new(fargs.clone());
    let mut out = vec![];
    for i in 0..p.t.len() {
        if let (Some(TokenTree::Ident(n)), true) = (p.t.get(i), matches!(p.t.get(i + 1), Some(TokenTree::Punct(c)) if c.as_char() == ':')) {
            if matches!(p.t.get(i + 2), Some(TokenTree::Punct(c)) if c.as_char() == '&')
                && matches!(p.t.get(i + 3), Some(TokenTree::Ident(d)) if d == "dyn")
            {
                out.push(n.clone());
            }
        }
    }
    out
}

/// the body of the climbing function, out of the marker left by `Gen::ex`
fn climb(s: TokenStream) -> TokenStream {
    let p = P::new(s);
    if let Some(TokenTree::Group(g)) = p.t.first() {
        let inner = P::new(g.stream());
        let at = inner
            .t
            .iter()
            .position(|t| matches!(t, TokenTree::Punct(c) if c.as_char() == '@'))
            .expect("climb marker");
        let body = inner.t[at + 2].clone();
        return quote!(#body);
    }
    panic!("climb marker");
}

fn subst(e: Ex, local: &[Ident]) -> Ex {
    let s = |e: Box<Ex>| Box::new(subst(*e, local));
    match e {
        Ex::Choice(v) => Ex::Choice(v.into_iter().map(|e| subst(e, local)).collect()),
        Ex::Seq(v, a) => Ex::Seq(v.into_iter().map(|(l, e)| (l, subst(e, local))).collect(), a),
        Ex::Opt(e) => Ex::Opt(s(e)),
        Ex::Rep(e, a, b, sep) => Ex::Rep(s(e), a, b, sep.map(s)),
        Ex::And(e) => Ex::And(s(e)),
        Ex::Not(e) => Ex::Not(s(e)),
        Ex::Slice(e) => Ex::Slice(s(e)),
        Ex::Quiet(e) => Ex::Quiet(s(e)),
        Ex::Call(n, args) if args.is_empty() && local.contains(&n) => Ex::Method(format_ident!("__local_{}", n), quote!()),
        Ex::Call(n, args) => Ex::Call(
            n,
            args.into_iter()
                .map(|a| match a {
                    Arg::Rule(e) => Arg::Rule(subst(e, local)),
                    a => a,
                })
                .collect(),
        ),
        other => other,
    }
}
