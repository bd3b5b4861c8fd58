#!/usr/bin/env python3
"""oracle/grammar.bnf -> harness/src/gram_tab.rs (committed; run by hand after editing the grammar)."""
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [("Plus", "+"), ("Asterisk", "*"), ("Semicolon", ";"), ("Colon", ":"), ("Dot", "."), ("Pipe", "|"),
         ("OpenBracket", "["), ("CloseBracket", "]"), ("OpenParen", "("), ("CloseParen", ")"), ("OpenBrace", "{"),
         ("CloseBrace", "}"), ("Comma", ","), ("DoubleArrow", "=>"), ("Arrow", "->"), ("Equals", "="),
         ("Ampersand", "&"), ("LeftArrow", "<-"), ("ColonEquals", ":="), ("At", "@"), ("Minus", "-"),
         ("Underscore", "_"), ("Forall", "forall"), ("Builtin", "builtin"), ("Library", "library"),
         ("Import", "import"), ("Let", "let"), ("In", "in"), ("Match", "match"), ("With", "with"), ("End", "end"),
         ("Fun", "fun"), ("Tfun", "tfun"), ("Contract", "contract"), ("Transition", "transition"), ("Send", "send"),
         ("Event", "event"), ("EventType", "Event"), ("Field", "field"), ("Accept", "accept"), ("Exists", "exists"),
         ("Delete", "delete"), ("Throw", "throw"), ("Map", "Map"), ("ScillaVersion", "scilla_version"),
         ("Type", "type"), ("Of", "of"), ("As", "as"), ("Procedure", "procedure"), ("Emp", "Emp"), ("ByStr", "ByStr")]
CLASS = [("ByStrWithSize", "BYSTRN"), ("Number", "NUMBER"), ("HexNumber", "HEX"), ("StringLiteral", "STRING"),
         ("Identifier", "ID"), ("SpecialIdentifier", "SPID"), ("CustomIdentifier", "CID"), ("TemplateIdentifier", "TID")]
kinds = [f[0] for f in FIXED] + [c[0] for c in CLASS]
NT = len(kinds)          # grammar terminals
UNKNOWN, EOF = NT, NT + 1
names = {}
for i, (k, t) in enumerate(FIXED):
    names["'%s'" % t] = i
for i, (k, u) in enumerate(CLASS):
    names[u] = len(FIXED) + i

prods = {}
order = []
aux = 0
def alloc(name):
    if name not in prods:
        prods[name] = None
        order.append(name)
    return name
src = [l for l in open(os.path.join(V, "oracle/grammar.bnf")) if l.strip() and not l.startswith("#")]
toks = {}
for l in src:
    n, rhs = l.split(":", 1)
    alloc(n)
    toks[n] = re.findall(r"'[^']+'[?*+]?|[A-Za-z]+[?*+]?|\||\(|\)[?*+]?", rhs)
def star(sym):
    n = "%s*" % sym
    if n not in prods:
        alloc(n)
        prods[n] = [[], [sym, n]]
    return n
def mod(sym, m):
    if m == "?":
        n = "%s?" % sym
        if n not in prods:
            alloc(n)
            prods[n] = [[], [sym]]
        return [n]
    if m == "*":
        return [star(sym)]
    if m == "+":
        return [sym, star(sym)]
    return [sym]
def parse(ts, i, owner):
    global aux
    alts = [[]]
    while i < len(ts):
        t = ts[i]
        if t == "|":
            alts.append([])
            i += 1
        elif t == "(":
            sub, i = parse(ts, i + 1, owner)
            m = ts[i][1:]
            i += 1
            aux += 1
            n = alloc("%s#%d" % (owner, aux))
            prods[n] = sub
            alts[-1] += mod(n, m)
        elif t.startswith(")"):
            return alts, i
        else:
            m = t[-1] if len(t) > 1 and t[-1] in "?*+" and not t.endswith("'") else ""
            s = t[:-1] if m else t
            alts[-1] += mod(s, m)
            i += 1
    return alts, i
for n in list(toks):
    prods[n] = parse(toks[n], 0, n)[0]
# left factoring (same language): alternatives with a common first symbol share it
def factor(n):
    global aux
    out, heads = [], []
    for a in prods[n]:
        h = a[0] if a else None
        if h not in heads:
            heads.append(h)
    for h in heads:
        g = [a for a in prods[n] if (a[0] if a else None) == h]
        if h is None or len(g) == 1:
            out += g
            continue
        k = 1
        while all(len(a) > k and a[k] == g[0][k] for a in g):
            k += 1
        aux += 1
        m = alloc("%s'%d" % (n.split("'")[0], aux))
        prods[m] = [a[k:] for a in g]
        out.append(g[0][:k] + [m])
        factor(m)
    prods[n] = out
for n in list(order):
    factor(n)
nid = {n: 128 + i for i, n in enumerate(order)}
assert len(nid) < 128
def sid(s):
    if s in names:
        return names[s]
    return nid[s]
# shortest yields
INF = 10 ** 9
best = {}
changed = True
def y(seq):
    out = []
    for s in seq:
        if s in names:
            out.append(names[s])
        elif s in best:
            out += best[s]
        else:
            return None
    return out
TID = names["TID"]
def cost(v):
    return len(v), v.count(TID)     # type variables last: the interface cannot express them
while changed:
    changed = False
    for n in order:
        for a in prods[n]:
            v = y(a)
            if v is not None and (n not in best or cost(v) < cost(best[n])):
                best[n] = v
                changed = True
o = ["// Generated by tools/gen_grammar.py from oracle/grammar.bnf.", "use scilla_parser::parser::lexer::Token;",
     "pub const NTERM: u32 = %d;" % NT, "pub const UNKNOWN: u8 = %d;" % UNKNOWN, "pub const EOF: u8 = %d;" % EOF]
for i, k in enumerate(kinds):
    o.append("pub const K_%s: u8 = %d;" % (k.upper(), i))
o.append("pub static SPELL: [&str; %d] = [%s];" % (NT + 2, ", ".join(
    ['"%s"' % t for _, t in FIXED] + ['"<%s>"' % u for _, u in CLASS] + ['"<UNKNOWN>"', '"<EOF>"'])))
o.append("pub const NFIXED: u8 = %d;" % len(FIXED))
o.append("pub static FIXED: [Token<&str>; %d] = [%s];" % (len(FIXED), ", ".join("Token::" + k for k, _ in FIXED)))
o.append("pub fn kind_of(t: &Token<&str>) -> u8 {\n    match t {")
for i, (k, _) in enumerate(FIXED):
    o.append("        Token::%s => %d," % (k, i))
for i, (k, _) in enumerate(CLASS):
    o.append("        Token::%s(_) => %d," % (k, len(FIXED) + i))
o.append("        _ => UNKNOWN,\n    }\n}")
o.append("pub fn text_of<'a>(t: &Token<&'a str>) -> &'a str {\n    match t {")
for k, _ in CLASS:
    o.append("        Token::%s(s) => s," % k)
o.append("        _ => \"\",\n    }\n}")
o.append("pub fn make<'a>(k: u8, s: &'a str) -> Token<&'a str> {\n    match k {")
for i, (k, _) in enumerate(CLASS):
    o.append("        %d => Token::%s(s)," % (len(FIXED) + i, k))
o.append("        UNKNOWN => Token::Unknown,\n        k => FIXED[k as usize].clone(),\n    }\n}")
flat, altix, ntix = [], [], []
for n in order:
    ntix.append(len(altix))
    for a in prods[n]:
        altix.append(len(flat))
        flat += [sid(s) for s in a] + [255]
ntix.append(len(altix))
o.append("// symbols < 128 are terminals, >= 128 nonterminals; 255 ends an alternative")
o.append("pub static FLAT: [u8; %d] = %s;" % (len(flat), flat))
o.append("pub static ALT: [u16; %d] = %s;" % (len(altix), altix))
o.append("pub static NTALT: [u16; %d] = %s;" % (len(ntix), ntix))
yflat, yix = [], []
for n in order:
    yix.append(len(yflat))
    yflat += best[n]
yix.append(len(yflat))
o.append("pub static YFLAT: [u8; %d] = %s;" % (len(yflat), yflat))
o.append("pub static YIX: [u16; %d] = %s;" % (len(yix), yix))
# systematic prefixes: for every alternative A -> X1..Xn and every dot position, the shortest left
# context of A followed by shortest yields of X1..Xi
import heapq
ctx = {}
heap = [(0, 0, "Program", [])]
tick = 0
while heap:
    _, _, n, c = heapq.heappop(heap)
    if n in ctx:
        continue
    ctx[n] = c
    for a in prods[n]:
        for i, s in enumerate(a):
            if s not in names and s not in ctx:
                c2 = c + y(a[:i])
                tick += 1
                heapq.heappush(heap, (len(c2), tick, s, c2))
prefixes = []
for n in [n for n in order if n in ctx]:
    for a in prods[n]:
        for i in range(len(a) + 1):
            q = ctx[n] + y(a[:i])
            if q not in prefixes:
                prefixes.append(q)
prefixes.sort(key=lambda q: (len(q), q))
pflat, pix = [], []
for q in prefixes:
    pix.append(len(pflat))
    pflat += q
pix.append(len(pflat))
o.append("pub static PFLAT: [u8; %d] = %s;" % (len(pflat), pflat))
o.append("pub static PIX: [u16; %d] = %s;" % (len(pix), pix))
print(len(prefixes), "prefixes, longest", max(map(len, prefixes)))
# repetition and nesting: a left context and a unit that may follow it any number of times
def left(src):
    """shortest left contexts of all nonterminals within src (src itself only via a cycle)"""
    c, heap, t = {}, [], 0
    for a in prods[src]:
        for i, s in enumerate(a):
            if s not in names:
                heapq.heappush(heap, (len(y(a[:i])), (t := t + 1), s, y(a[:i])))
    while heap:
        _, _, n, q = heapq.heappop(heap)
        if n in c:
            continue
        c[n] = q
        for a in prods[n]:
            for i, s in enumerate(a):
                if s not in names and s not in c:
                    q2 = q + y(a[:i])
                    heapq.heappush(heap, (len(q2), (t := t + 1), s, q2))
    return c
units = []
for n in [n for n in order if n in ctx]:
    if n.endswith("*"):
        s = n[:-1]
        for a in (prods[s] if s in prods else [[s]]):
            u = y(a)
            if u and (ctx[n], u) not in units:
                units.append((ctx[n], u))
    for a in prods[n]:
        for i, s in enumerate(a):
            if s in names:
                continue
            back = [] if s == n else left(s).get(n)
            if back is None:
                continue
            u = y(a[:i]) + back
            if u and (ctx[n], u) not in units:
                units.append((ctx[n], u))
rflat, rix = [], []
for c, u in units:
    rix.append(len(rflat)); rflat += c
    rix.append(len(rflat)); rflat += u
rix.append(len(rflat))
o.append("pub static RFLAT: [u8; %d] = %s;" % (len(rflat), rflat))
o.append("pub static RIX: [u16; %d] = %s;" % (len(rix), rix))
print(len(units), "repetitions, longest unit", max(len(u) for _, u in units))
# the same per public parser
ENTRIES = [('ByteString', 'BYSTRN'), ('TypeNameIdentifier', 'TName'), ('ImportedName', 'ImportedName'), ('ImportDeclarations', 'ImportDecls'), ('MetaIdentifier', 'Meta'), ('VariableIdentifier', 'Var'), ('BuiltinArguments', 'BuiltinArgs'), ('RemainingTypes', 'Simple'), ('FunctionSignature', 'FuncSig'), ('ScillaType', 'Type'), ('TypeArgument', 'TArg'), ('AddressType', 'Addr'), ('AddressTypeFieldList', 'AFields'), ('NextAddressTypeField', 'NextAField'), ('AddressTypeField', 'AField'), ('TypeMapKey', 'MKey'), ('TypeMapValue', 'MVal'), ('TypeMapValueArguments', 'MArg'), ('Program', 'Program'), ('LibraryDefinition', 'Library'), ('LibrarySingleDefinition', 'LibDef'), ('TypedIdentifier', 'Param'), ('TypeAnnotation', 'Annot'), ('TypeAlternativeClause', 'Alt'), ('TypeMapValueAllowingTypeArguments', 'MValA'), ('ContractTypeArguments', 'TArgs'), ('FullExpression', 'Expr'), ('PatternMatchExpressionClause', 'EClause'), ('Pattern', 'Pattern'), ('ArgumentPattern', 'APat'), ('NextMessageEntry', 'NextMsg'), ('MessageEntry', 'Msg'), ('AtomicExpression', 'Atomic'), ('ValueLiteral', 'Lit'), ('Statement', 'Stmt'), ('NextStatement', 'NextStmt'), ('StatementBlock', 'Block'), ('BlockchainFetchArguments', 'BArgs'), ('ComponentId', 'CompId'), ('PatternMatchClause', 'SClause'), ('RemoteFetchStatement', 'Fetch'), ('MapAccess', 'Access'), ('ParameterPair', 'Param'), ('NextParameterPair', 'NextParam'), ('ComponentParameters', 'Params'), ('ComponentDefinition', 'Comp'), ('TransitionDefinition', 'TDef'), ('ProcedureDefinition', 'PDef'), ('ComponentBody', 'Body'), ('ContractDefinition', 'Contract'), ('ContractField', 'Field'), ('WithConstraint', 'With')]
epix, estart, eflat = [], [], []
for _, st in ENTRIES:
    epix.append(len(estart))
    qs = [[]]
    c = {}
    if st not in names:
        c = {st: [], **left(st)}
        c[st] = []
    for n in c:
        for a in prods[n]:
            for i in range(len(a) + 1):
                q = c[n] + y(a[:i])
                if q not in qs:
                    qs.append(q)
    if st in names:
        qs.append([names[st]])
    for q in sorted(qs, key=lambda q: (len(q), q)):
        estart.append(len(eflat))
        eflat += q
epix.append(len(estart)); estart.append(len(eflat))
o.append("pub static ENTRY: [(&str, u8); %d] = [%s];" % (len(ENTRIES), ", ".join('("%s", %d)' % (n, sid(s)) for n, s in ENTRIES)))
o.append("pub static EPIX: [u16; %d] = %s;" % (len(epix), epix))
o.append("pub static ESTART: [u16; %d] = %s;" % (len(estart), estart))
o.append("pub static EPFLAT: [u8; %d] = %s;" % (len(eflat), eflat))
print(len(estart) - 1, "prefixes of", len(ENTRIES), "parsers, most", max(b - a for a, b in zip(epix, epix[1:])))
o.append("pub const START: u8 = %d;" % nid["Program"])
open(os.path.join(V, "harness/src/gram_tab.rs"), "w").write("\n".join(o) + "\n")
print(len(order), "nonterminals", len(altix), "alternatives", len(flat), "symbols")
