//! Reference walk over a syntax tree: replays the tokens it stands for (C10) and the
//! traversal events it has to cause (C11).
use crate::gram_tab::*;
use crate::rt::*;
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::*;

pub type Meta<T> = WithMetaData<T>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ev {
    Push(SourcePosition, SourcePosition),
    Pop,
    Enter(u8, usize),
    Exit(u8, usize),
}

pub const NAMES: &[&str] = &[
    "byte_str", "type_name_identifier", "imported_name", "import_declarations", "meta_identifier", "variable_identifier",
    "builtin_arguments", "type_map_key", "type_map_value", "type_argument", "scilla_type", "type_map_entry", "address_type_field",
    "address_type", "full_expression", "message_entry", "pattern_match_expression_clause", "atomic_expression",
    "contract_type_arguments", "value_literal", "map_access", "pattern", "argument_pattern", "pattern_match_clause",
    "blockchain_fetch_arguments", "statement", "remote_fetch_statement", "component_id", "component_parameters", "parameter_pair",
    "component_body", "statement_block", "typed_identifier", "type_annotation", "program", "library_definition",
    "library_single_definition", "contract_definition", "contract_field", "with_constraint", "component_definition",
    "procedure_definition", "transition_definition", "type_alternative_clause", "type_map_value_arguments",
    "type_map_value_allowing_type_arguments",
];

pub struct W<'a> {
    pub toks: &'a [(SourcePosition, Token<&'static str>, SourcePosition)],
    pub at: usize,
    pub tok_on: bool,
    pub ev: Vec<Ev>,
    pub ev_on: bool,
}

fn addr<T>(t: &T) -> usize {
    t as *const T as usize
}

impl<'a> W<'a> {
    pub fn new(toks: &'a [(SourcePosition, Token<&'static str>, SourcePosition)], tok_on: bool, ev_on: bool) -> W<'a> {
        W { toks, at: 0, tok_on, ev: vec![], ev_on }
    }
    fn peek(&self) -> u8 {
        match self.toks.get(self.at) {
            Some(t) => kind_of(&t.1),
            None => EOF,
        }
    }
    /// the next token is of this kind
    pub fn t(&mut self, k: u8) {
        if self.tok_on {
            let ok = self.peek() == k;
            if !ok {
                describe(|| format!("tree has {:?} where the source has token {} ({:?})", SPELL[k as usize], self.at, self.toks.get(self.at).map(|t| t.1.clone())));
            }
            check(ok, 1001);
            if !ok {
                end()
            }
            self.at += 1;
        }
    }
    /// the next token is of this kind and carries this text
    fn text(&mut self, k: u8, s: &str) {
        if self.tok_on {
            self.t(k);
            let got = text_of(&self.toks[self.at - 1].1);
            if got != s {
                describe(|| format!("tree has {:?} where the source has {:?} (token {})", s, got, self.at - 1));
            }
            check(got == s, 1002);
        }
    }
    fn close<T>(&mut self, from: usize, m: &Meta<T>) {
        if self.tok_on {
            let (s, e) = (self.toks[from].0, self.toks[self.at - 1].2);
            if m.start != s || m.end != e {
                describe(|| format!("node over tokens {}..{} says {:?}..{:?}", from, self.at, m.start, m.end));
            }
            check(m.start == s, 1003);
            check(m.end == e, 1004);
        }
    }
    fn name(&mut self, k: u8, m: &Meta<String>) {
        let a = self.at;
        self.text(k, &m.node);
        self.close(a, m);
    }
    pub fn meta<T>(&mut self, m: &Meta<T>, f: impl FnOnce(&mut Self, &T)) {
        if self.ev_on {
            self.ev.push(Ev::Push(m.start, m.end));
        }
        let a = self.at;
        f(self, &m.node);
        self.close(a, m);
        if self.ev_on {
            self.ev.push(Ev::Pop);
        }
    }
    fn node<T>(&mut self, id: u8, n: &T, f: impl FnOnce(&mut Self)) {
        if self.ev_on {
            self.ev.push(Ev::Enter(id, addr(n)));
        }
        f(self);
        if self.ev_on {
            self.ev.push(Ev::Exit(id, addr(n)));
        }
    }
    /// how the node prints is the source text of its tokens
    fn shown(&mut self, from: usize, s: impl FnOnce() -> String) {
        if self.tok_on && enabled(1005) {
            let mut w = String::new();
            for t in &self.toks[from..self.at] {
                let k = kind_of(&t.1);
                w.push_str(if k < NFIXED { SPELL[k as usize] } else { text_of(&t.1) });
            }
            let s = s();
            if s != w {
                describe(|| format!("prints {s:?}, source has {w:?}"));
            }
            check(s == w, 1005);
        }
    }

    /// every token has been seen
    pub fn done(&mut self) {
        check(self.at == self.toks.len(), 1006)
    }
    pub fn program(&mut self, p: &NodeProgram) {
        self.node(34, p, |w| {
            w.t(K_SCILLAVERSION);
            w.name(K_NUMBER, &p.version);
            if let Some(i) = &p.import_declarations {
                w.meta(i, |w, n| w.imports(n))
            }
            if let Some(l) = &p.library_definition {
                w.meta(l, |w, n| w.library(n))
            }
            w.meta(&p.contract_definition, |w, n| w.contract(n));
            if w.tok_on {
                check(w.at == w.toks.len(), 1006);
            }
        })
    }
    pub fn imports(&mut self, i: &NodeImportDeclarations) {
        self.node(3, i, |w| {
            for (j, n) in i.import_list.iter().enumerate() {
                // one import keyword may introduce several names
                if j == 0 || w.peek() == K_IMPORT {
                    w.t(K_IMPORT)
                }
                w.meta(n, |w, n| w.node(2, n, |w| match n {
                    NodeImportedName::RegularImport(a) => w.tname(a),
                    NodeImportedName::AliasedImport(a, b) => {
                        w.tname(a);
                        w.t(K_AS);
                        w.tname(b)
                    }
                }))
            }
        })
    }
    pub fn tname(&mut self, m: &Meta<NodeTypeNameIdentifier>) {
        self.meta(m, |w, n| w.tname_(n))
    }
    fn tname_(&mut self, n: &NodeTypeNameIdentifier) {
        let a = self.at;
        self.node(1, n, |w| match n {
            NodeTypeNameIdentifier::ByteStringType(b) => w.node(0, b, |w| match b {
                NodeByteStr::Type(s) | NodeByteStr::Constant(s) => w.name(K_BYSTRWITHSIZE, s),
            }),
            NodeTypeNameIdentifier::EventType => w.t(K_EVENTTYPE),
            NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(s) => w.name(K_CUSTOMIDENTIFIER, s),
        });
        self.shown(a, || n.to_string());
    }
    pub fn mid(&mut self, m: &Meta<NodeMetaIdentifier>) {
        self.meta(m, |w, n| {
            let a = w.at;
            w.node(4, n, |w| match n {
                NodeMetaIdentifier::MetaName(x) => w.tname(x),
                NodeMetaIdentifier::MetaNameInNamespace(x, y) => {
                    w.tname(x);
                    w.t(K_DOT);
                    w.tname(y)
                }
                NodeMetaIdentifier::MetaNameInHexspace(x, y) => {
                    w.name(K_HEXNUMBER, x);
                    w.t(K_DOT);
                    w.tname(y)
                }
                NodeMetaIdentifier::ByteString => w.t(K_BYSTR),
            });
            w.shown(a, || n.to_string());
        })
    }
    pub fn var(&mut self, m: &Meta<NodeVariableIdentifier>) {
        self.meta(m, |w, n| {
            let a = w.at;
            w.node(5, n, |w| match n {
                NodeVariableIdentifier::VariableName(s) => w.name(K_IDENTIFIER, s),
                NodeVariableIdentifier::SpecialIdentifier(s) => w.name(K_SPECIALIDENTIFIER, s),
                NodeVariableIdentifier::VariableInNamespace(t, s) => {
                    w.tname(t);
                    w.t(K_DOT);
                    w.name(K_IDENTIFIER, s)
                }
            });
            w.shown(a, || n.to_string());
        })
    }
    fn vars(&mut self, v: &[Meta<NodeVariableIdentifier>]) {
        for x in v {
            self.var(x)
        }
    }
    pub fn ty(&mut self, m: &Meta<NodeScillaType>) {
        self.meta(m, |w, n| w.node(10, n, |w| match n {
            NodeScillaType::GenericTypeWithArgs(i, args) => {
                w.mid(i);
                for a in args {
                    w.targ(a)
                }
            }
            NodeScillaType::MapType(k, v) => {
                w.t(K_MAP);
                w.mkey(k);
                w.mval(v)
            }
            NodeScillaType::FunctionType(a, b) => {
                w.ty(a);
                w.t(K_ARROW);
                w.ty(b)
            }
            NodeScillaType::EnclosedType(a) => {
                w.t(K_OPENPAREN);
                w.ty(a);
                w.t(K_CLOSEPAREN)
            }
            NodeScillaType::ScillaAddresseType(a) => w.address(a),
            NodeScillaType::PolyFunctionType(s, a) => {
                w.t(K_FORALL);
                w.name(K_TEMPLATEIDENTIFIER, s);
                w.t(K_DOT);
                w.ty(a)
            }
            NodeScillaType::TypeVarType(s) => w.name(K_TEMPLATEIDENTIFIER, s),
        }))
    }
    pub fn targ(&mut self, m: &Meta<NodeTypeArgument>) {
        self.meta(m, |w, n| w.node(9, n, |w| match n {
            NodeTypeArgument::EnclosedTypeArgument(a) => {
                w.t(K_OPENPAREN);
                w.ty(a);
                w.t(K_CLOSEPAREN)
            }
            NodeTypeArgument::GenericTypeArgument(a) => w.mid(a),
            NodeTypeArgument::TemplateTypeArgument(s) => w.name(K_TEMPLATEIDENTIFIER, s),
            NodeTypeArgument::AddressTypeArgument(a) => w.address(a),
            NodeTypeArgument::MapTypeArgument(k, v) => {
                w.t(K_MAP);
                w.mkey(k);
                w.mval(v)
            }
        }))
    }
    pub fn address(&mut self, m: &Meta<NodeAddressType>) {
        self.meta(m, |w, n| w.node(13, n, |w| {
            w.tname(&n.identifier);
            w.t(K_WITH);
            match n.type_name.node.as_str() {
                "" => {
                    // nothing stands for it
                }
                "contract" if w.peek() == K_CONTRACT || !w.tok_on => {
                    let a = w.at;
                    w.t(K_CONTRACT);
                    w.close(a, &n.type_name)
                }
                "library" if w.peek() == K_LIBRARY || !w.tok_on => {
                    let a = w.at;
                    w.t(K_LIBRARY);
                    w.close(a, &n.type_name)
                }
                _ => w.name(K_SPECIALIDENTIFIER, &n.type_name),
            }
            for (j, f) in n.address_fields.iter().enumerate() {
                if j > 0 {
                    w.t(K_COMMA)
                }
                w.meta(f, |w, f| w.node(12, f, |w| {
                    w.t(K_FIELD);
                    w.var(&f.identifier);
                    w.t(K_COLON);
                    w.ty(&f.type_name)
                }))
            }
            w.t(K_END)
        }))
    }
    pub fn mkey(&mut self, m: &Meta<NodeTypeMapKey>) {
        self.meta(m, |w, n| w.node(7, n, |w| match n {
            NodeTypeMapKey::GenericMapKey(a) => w.mid(a),
            NodeTypeMapKey::EnclosedGenericId(a) => {
                w.t(K_OPENPAREN);
                w.mid(a);
                w.t(K_CLOSEPAREN)
            }
            NodeTypeMapKey::EnclosedAddressMapKeyType(a) => {
                w.t(K_OPENPAREN);
                w.address(a);
                w.t(K_CLOSEPAREN)
            }
            NodeTypeMapKey::AddressMapKeyType(a) => w.address(a),
        }))
    }
    pub fn mval(&mut self, m: &Meta<NodeTypeMapValue>) {
        self.meta(m, |w, n| w.node(8, n, |w| match n {
            NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(a) => w.mid(a),
            NodeTypeMapValue::MapKeyValue(e) => w.meta(e, |w, e| {
                w.node(11, e, |w| {
                    w.t(K_MAP);
                    w.mkey(&e.key);
                    w.mval(&e.value)
                })
            }),
            NodeTypeMapValue::MapValueParenthesizedType(a) => {
                w.t(K_OPENPAREN);
                w.mvala(a);
                w.t(K_CLOSEPAREN)
            }
            NodeTypeMapValue::MapValueAddressType(a) => w.address(a),
        }))
    }
    pub fn mvala(&mut self, m: &Meta<NodeTypeMapValueAllowingTypeArguments>) {
        self.meta(m, |w, n| w.node(45, n, |w| match n {
            NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(v) => w.mval(v),
            NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(i, args) => {
                w.mid(i);
                for a in args {
                    w.meta(a, |w, a| w.node(44, a, |w| match a {
                        NodeTypeMapValueArguments::EnclosedTypeMapValue(v) => {
                            w.t(K_OPENPAREN);
                            w.mvala(v);
                            w.t(K_CLOSEPAREN)
                        }
                        NodeTypeMapValueArguments::GenericMapValueArgument(i) => w.mid(i),
                        NodeTypeMapValueArguments::MapKeyValueType(k, v) => {
                            w.t(K_MAP);
                            w.mkey(k);
                            w.mval(v)
                        }
                    }))
                }
            }
        }))
    }
    pub fn library(&mut self, n: &NodeLibraryDefinition) {
        self.node(35, n, |w| {
            w.t(K_LIBRARY);
            w.tname(&n.name);
            for d in &n.definitions {
                w.meta(d, |w, d| w.node(36, d, |w| match d {
                    NodeLibrarySingleDefinition::LetDefinition { variable_name, type_annotation, expression } => {
                        w.t(K_LET);
                        w.name(K_IDENTIFIER, variable_name);
                        if let Some(a) = type_annotation {
                            w.annot(a)
                        }
                        w.t(K_EQUALS);
                        w.expr(expression)
                    }
                    NodeLibrarySingleDefinition::TypeDefinition(n, alts) => {
                        w.t(K_TYPE);
                        w.tname(n);
                        if let Some(alts) = alts {
                            w.t(K_EQUALS);
                            for a in alts {
                                w.meta(a, |w, a| w.node(43, a, |w| {
                                    w.t(K_PIPE);
                                    match a {
                                        NodeTypeAlternativeClause::ClauseType(n) => w.tname(n),
                                        NodeTypeAlternativeClause::ClauseTypeWithArgs(n, args) => {
                                            w.tname(n);
                                            w.t(K_OF);
                                            for a in args {
                                                w.targ(a)
                                            }
                                        }
                                    }
                                }))
                            }
                        }
                    }
                }))
            }
        })
    }
    pub fn annot(&mut self, m: &Meta<NodeTypeAnnotation>) {
        self.meta(m, |w, n| w.node(33, n, |w| {
            w.t(K_COLON);
            w.ty(&n.type_name)
        }))
    }
    pub fn targs(&mut self, m: &Meta<NodeContractTypeArguments>) {
        self.meta(m, |w, n| w.node(18, n, |w| {
            w.t(K_OPENBRACE);
            for a in &n.type_arguments {
                w.targ(a)
            }
            w.t(K_CLOSEBRACE)
        }))
    }
    pub fn expr(&mut self, m: &Meta<NodeFullExpression>) {
        self.meta(m, |w, n| w.node(14, n, |w| match n {
            NodeFullExpression::LocalVariableDeclaration { identifier_name, expression, type_annotation, containing_expression } => {
                w.t(K_LET);
                w.name(K_IDENTIFIER, identifier_name);
                if let Some(a) = type_annotation {
                    w.annot(a)
                }
                w.t(K_EQUALS);
                w.expr(expression);
                w.t(K_IN);
                w.expr(containing_expression)
            }
            NodeFullExpression::FunctionDeclaration { identier_value, type_annotation, expression } => {
                w.t(K_FUN);
                w.t(K_OPENPAREN);
                w.name(K_IDENTIFIER, identier_value);
                w.annot(type_annotation);
                w.t(K_CLOSEPAREN);
                w.t(K_DOUBLEARROW);
                w.expr(expression)
            }
            NodeFullExpression::FunctionCall { function_name, argument_list } => {
                w.var(function_name);
                w.vars(argument_list)
            }
            NodeFullExpression::ExpressionAtomic(a) => w.meta(a, |w, a| {
                w.node(17, a, |w| match a {
                    NodeAtomicExpression::AtomicSid(v) => w.var(v),
                    NodeAtomicExpression::AtomicLit(l) => w.lit(l),
                })
            }),
            NodeFullExpression::ExpressionBuiltin { b, targs, xs } => {
                w.t(K_BUILTIN);
                w.name(K_IDENTIFIER, b);
                if let Some(t) = targs {
                    w.targs(t)
                }
                w.meta(xs, |w, n| w.node(6, n, |w| {
                    if n.arguments.is_empty() {
                        w.t(K_OPENPAREN);
                        w.t(K_CLOSEPAREN)
                    }
                    w.vars(&n.arguments)
                }))
            }
            NodeFullExpression::Message(es) => {
                w.t(K_OPENBRACE);
                for (j, e) in es.iter().enumerate() {
                    if j > 0 {
                        w.t(K_SEMICOLON)
                    }
                    w.meta(e, |w, e| w.node(15, e, |w| match e {
                        NodeMessageEntry::MessageLiteral(v, l) => {
                            w.var(v);
                            w.t(K_COLON);
                            w.lit(l)
                        }
                        NodeMessageEntry::MessageVariable(v, x) => {
                            w.var(v);
                            w.t(K_COLON);
                            w.var(x)
                        }
                    }))
                }
                w.t(K_CLOSEBRACE)
            }
            NodeFullExpression::Match { match_expression, clauses } => {
                w.t(K_MATCH);
                w.var(match_expression);
                w.t(K_WITH);
                for c in clauses {
                    w.meta(c, |w, c| w.node(16, c, |w| {
                        w.t(K_PIPE);
                        w.pattern(&c.pattern);
                        w.t(K_DOUBLEARROW);
                        w.expr(&c.expression)
                    }))
                }
                w.t(K_END)
            }
            NodeFullExpression::ConstructorCall { identifier_name, contract_type_arguments, argument_list } => {
                w.mid(identifier_name);
                if let Some(t) = contract_type_arguments {
                    w.targs(t)
                }
                w.vars(argument_list)
            }
            NodeFullExpression::TemplateFunction { identifier_name, expression } => {
                w.t(K_TFUN);
                w.name(K_TEMPLATEIDENTIFIER, identifier_name);
                w.t(K_DOUBLEARROW);
                w.expr(expression)
            }
            NodeFullExpression::TApp { identifier_name, type_arguments } => {
                w.t(K_AT);
                w.var(identifier_name);
                for a in type_arguments {
                    w.targ(a)
                }
            }
        }))
    }
    pub fn lit(&mut self, m: &Meta<NodeValueLiteral>) {
        self.meta(m, |w, n| w.node(19, n, |w| match n {
            NodeValueLiteral::LiteralInt(t, s) => {
                w.tname(t);
                w.name(K_NUMBER, s)
            }
            NodeValueLiteral::LiteralHex(s) => w.name(K_HEXNUMBER, s),
            NodeValueLiteral::LiteralString(s) => w.name(K_STRINGLITERAL, s),
            NodeValueLiteral::LiteralEmptyMap(k, v) => {
                w.t(K_EMP);
                w.mkey(k);
                w.mval(v)
            }
        }))
    }
    pub fn pattern(&mut self, m: &Meta<NodePattern>) {
        self.meta(m, |w, n| w.node(21, n, |w| match n {
            NodePattern::Wildcard => w.t(K_UNDERSCORE),
            NodePattern::Binder(s) => w.name(K_IDENTIFIER, s),
            NodePattern::Constructor(i, args) => {
                w.mid(i);
                for a in args {
                    w.meta(a, |w, a| w.node(22, a, |w| match a {
                        NodeArgumentPattern::WildcardArgument => w.t(K_UNDERSCORE),
                        NodeArgumentPattern::BinderArgument(s) => w.name(K_IDENTIFIER, s),
                        NodeArgumentPattern::ConstructorArgument(i) => w.mid(i),
                        NodeArgumentPattern::PatternArgument(p) => {
                            w.t(K_OPENPAREN);
                            w.pattern(p);
                            w.t(K_CLOSEPAREN)
                        }
                    }))
                }
            }
        }))
    }
    pub fn access(&mut self, v: &[Meta<NodeMapAccess>]) {
        for m in v {
            self.meta(m, |w, n| w.node(20, n, |w| {
                w.t(K_OPENBRACKET);
                w.var(&n.identifier_name);
                w.t(K_CLOSEBRACKET)
            }))
        }
    }
    pub fn block(&mut self, m: &Meta<NodeStatementBlock>) {
        self.meta(m, |w, n| w.node(31, n, |w| {
            for (j, s) in n.statements.iter().enumerate() {
                if j > 0 {
                    w.t(K_SEMICOLON)
                }
                w.stmt(s)
            }
        }))
    }
    pub fn stmt(&mut self, n: &NodeStatement) {
        self.node(25, n, |w| match n {
            NodeStatement::Load { left_hand_side, right_hand_side } => {
                w.name(K_IDENTIFIER, left_hand_side);
                w.t(K_LEFTARROW);
                w.var(right_hand_side)
            }
            NodeStatement::RemoteFetch(f) => w.fetch(f),
            NodeStatement::Store { left_hand_side, right_hand_side } => {
                w.name(K_IDENTIFIER, left_hand_side);
                w.t(K_COLONEQUALS);
                w.var(right_hand_side)
            }
            NodeStatement::Bind { left_hand_side, right_hand_side } => {
                w.name(K_IDENTIFIER, left_hand_side);
                w.t(K_EQUALS);
                w.expr(right_hand_side)
            }
            NodeStatement::ReadFromBC { left_hand_side, type_name, arguments } => {
                w.name(K_IDENTIFIER, left_hand_side);
                w.t(K_LEFTARROW);
                w.t(K_AMPERSAND);
                w.tname(type_name);
                if let Some(a) = arguments {
                    w.node(24, a, |w| {
                        w.t(K_OPENPAREN);
                        w.vars(&a.arguments);
                        w.t(K_CLOSEPAREN)
                    })
                }
            }
            NodeStatement::MapGet { left_hand_side, keys, right_hand_side } => {
                w.name(K_IDENTIFIER, left_hand_side);
                w.t(K_LEFTARROW);
                w.name(K_IDENTIFIER, right_hand_side);
                w.access(keys)
            }
            NodeStatement::MapGetExists { left_hand_side, keys, right_hand_side } => {
                w.name(K_IDENTIFIER, left_hand_side);
                w.t(K_LEFTARROW);
                w.t(K_EXISTS);
                w.name(K_IDENTIFIER, right_hand_side);
                w.access(keys)
            }
            NodeStatement::MapUpdate { left_hand_side, keys, right_hand_side } => {
                w.name(K_IDENTIFIER, left_hand_side);
                w.access(keys);
                w.t(K_COLONEQUALS);
                w.var(right_hand_side)
            }
            NodeStatement::MapUpdateDelete { left_hand_side, keys } => {
                w.t(K_DELETE);
                w.name(K_IDENTIFIER, left_hand_side);
                w.access(keys)
            }
            NodeStatement::Accept => w.t(K_ACCEPT),
            NodeStatement::Send { identifier_name } => {
                w.t(K_SEND);
                w.var(identifier_name)
            }
            NodeStatement::CreateEvnt { identifier_name } => {
                w.t(K_EVENT);
                w.var(identifier_name)
            }
            NodeStatement::Throw { error_variable } => {
                w.t(K_THROW);
                if let Some(v) = error_variable {
                    w.var(v)
                }
            }
            NodeStatement::MatchStmt { variable, clauses } => {
                w.t(K_MATCH);
                w.var(variable);
                w.t(K_WITH);
                for c in clauses {
                    w.meta(c, |w, c| w.node(23, c, |w| {
                        w.t(K_PIPE);
                        w.pattern(&c.pattern_expression);
                        w.t(K_DOUBLEARROW);
                        if let Some(b) = &c.statement_block {
                            w.block(b)
                        }
                    }))
                }
                w.t(K_END)
            }
            NodeStatement::CallProc { component_id, arguments } => {
                w.compid(component_id);
                w.vars(arguments)
            }
            NodeStatement::Iterate { identifier_name, component_id } => {
                w.t(K_FORALL);
                w.var(identifier_name);
                w.compid(component_id)
            }
        })
    }
    pub fn fetch(&mut self, n: &NodeRemoteFetchStatement) {
        self.node(26, n, |w| {
            let head = |w: &mut Self, l: &Meta<String>| {
                w.name(K_IDENTIFIER, l);
                w.t(K_LEFTARROW);
                w.t(K_AMPERSAND)
            };
            match n {
                NodeRemoteFetchStatement::ReadStateMutable(l, a, v) => {
                    head(w, l);
                    w.name(K_IDENTIFIER, a);
                    w.t(K_DOT);
                    w.var(v)
                }
                NodeRemoteFetchStatement::ReadStateMutableSpecialId(l, a, v) => {
                    head(w, l);
                    w.name(K_SPECIALIDENTIFIER, a);
                    w.t(K_DOT);
                    w.name(K_SPECIALIDENTIFIER, v)
                }
                NodeRemoteFetchStatement::ReadStateMutableMapAccess(l, a, v, k) => {
                    head(w, l);
                    w.name(K_IDENTIFIER, a);
                    w.t(K_DOT);
                    w.name(K_IDENTIFIER, v);
                    w.access(k)
                }
                NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(l, a, v, k) => {
                    head(w, l);
                    w.t(K_EXISTS);
                    w.name(K_IDENTIFIER, a);
                    w.t(K_DOT);
                    w.name(K_IDENTIFIER, v);
                    w.access(k)
                }
                NodeRemoteFetchStatement::ReadStateMutableCastAddress(l, v, t) => {
                    head(w, l);
                    w.var(v);
                    w.t(K_AS);
                    w.address(t)
                }
            }
        })
    }
    pub fn compid(&mut self, m: &Meta<NodeComponentId>) {
        self.meta(m, |w, n| w.node(27, n, |w| match n {
            NodeComponentId::WithTypeLikeName(t) => w.tname(t),
            NodeComponentId::WithRegularId(s) => w.name(K_IDENTIFIER, s),
        }))
    }
    pub fn typed(&mut self, m: &Meta<NodeTypedIdentifier>) {
        self.meta(m, |w, n| w.node(32, n, |w| {
            w.name(K_IDENTIFIER, &n.identifier_name);
            w.annot(&n.annotation)
        }))
    }
    pub fn params(&mut self, m: &Meta<NodeComponentParameters>) {
        self.meta(m, |w, n| w.node(28, n, |w| {
            w.t(K_OPENPAREN);
            for (j, p) in n.parameters.iter().enumerate() {
                if j > 0 {
                    w.t(K_COMMA)
                }
                w.meta(p, |w, p| w.node(29, p, |w| w.typed(&p.identifier_with_type)))
            }
            w.t(K_CLOSEPAREN)
        }))
    }
    pub fn body(&mut self, m: &Meta<NodeComponentBody>) {
        self.meta(m, |w, n| w.node(30, n, |w| {
            if let Some(b) = &n.statement_block {
                w.block(b)
            }
            w.t(K_END)
        }))
    }
    pub fn contract(&mut self, n: &NodeContractDefinition) {
        self.node(37, n, |w| {
            w.t(K_CONTRACT);
            w.tname(&n.contract_name);
            w.params(&n.parameters);
            if let Some(c) = &n.constraint {
                w.meta(c, |w, c| w.node(39, c, |w| {
                    w.t(K_WITH);
                    w.expr(&c.expression);
                    w.t(K_DOUBLEARROW)
                }))
            }
            for f in &n.fields {
                w.meta(f, |w, f| w.node(38, f, |w| {
                    w.t(K_FIELD);
                    w.typed(&f.typed_identifier);
                    w.t(K_EQUALS);
                    w.expr(&f.right_hand_side)
                }))
            }
            for c in &n.components {
                w.meta(c, |w, c| w.node(40, c, |w| match c {
                    NodeComponentDefinition::TransitionComponent(d) => w.meta(d, |w, d| w.node(42, d, |w| {
                        w.t(K_TRANSITION);
                        w.compid(&d.name);
                        w.params(&d.parameters);
                        w.body(&d.body)
                    })),
                    NodeComponentDefinition::ProcedureComponent(d) => w.meta(d, |w, d| w.node(41, d, |w| {
                        w.t(K_PROCEDURE);
                        w.compid(&d.name);
                        w.params(&d.parameters);
                        w.body(&d.body)
                    })),
                }))
            }
        })
    }
}
