"""C17: the XML parser accepts nothing the grammar of XML does not allow.

Every parsing method is followed with the automaton of its production: characters
and nested productions that are consumed move the automaton, and the method may
only return when the automaton accepts.  (Checking for well-formedness on, the
SGML options off.)"""
from ..interp import Client, Interp, State, av, const, TOP, NONE, TRUE, FALSE, TRUTHY, FALSY, ANY, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result

LETTERS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGITS = set('0123456789')
SPACE = set('\t\n\r ')
ALPHA = set(chr(i) for i in range(0x20, 0x7f)) | SPACE | set(['\xe9', '\xb7', '\xd7'])
NAMESTART = LETTERS | set('_:\xe9')
NAMECHAR = NAMESTART | DIGITS | set('.-\xb7')
PUBID = LETTERS | DIGITS | set(' \r\n-\'()+,./:=?;!*#@$_%')
CLASS = {
    'Char': ALPHA, 'S': SPACE, 'Pubid': PUBID, 'Start': NAMESTART, 'NameChar': NAMECHAR, 'Digit': DIGITS,
    'Hex': DIGITS | set('abcdefABCDEF'), 'EncStart': LETTERS, 'Enc': LETTERS | DIGITS | set('._-'),
}
PRED = {'IsS': SPACE, 'IsChar': ALPHA, 'IsPubidChar': PUBID, 'IsNameStartChar': NAMESTART, 'IsNameChar': NAMECHAR}
PREDCLASS = {'EncNameStartCharClass': CLASS['EncStart'], 'EncNameCharClass': CLASS['Enc']}
EVERY = frozenset(ALPHA | set([None]))


# ---------------------------------------------------------------- automata
class NFA(object):
    """from a regular expression over characters and nonterminals"""

    def __init__(self, text):
        self.edges, self.eps = {}, {}
        self.n = 0
        self.toks = self.lex(text)
        self.i = 0
        s, f = self.alt()
        if self.i != len(self.toks):
            raise ValueError(text)
        self.final = f
        self.start = self.close([s])

    @staticmethod
    def lex(text):
        out, i = [], 0
        while i < len(text):
            c = text[i]
            if c.isspace():
                i += 1
            elif c in '()|*+?':
                out.append(c)
                i += 1
            elif c in '\'"':
                j = text.index(c, i + 1)
                out.append(('lit', text[i + 1:j]))
                i = j + 1
            elif c == '{':
                j = text.index('}', i + 1)
                b = text[i + 1:j]
                n, _, minus = b.partition('\\')
                out.append(('set', frozenset(CLASS[n] - set(minus))))
                i = j + 1
            elif c == '<':
                j = text.index('>', i + 1)
                out.append(('nt', text[i + 1:j]))
                i = j + 1
            else:
                raise ValueError(text[i:])
        return out

    def new(self):
        self.n += 1
        return self.n

    def add(self, a, label, b):
        if label is None:
            self.eps.setdefault(a, []).append(b)
        else:
            self.edges.setdefault(a, []).append((label, b))

    def alt(self):
        s, f = self.new(), self.new()
        while True:
            a, b = self.seq()
            self.add(s, None, a)
            self.add(b, None, f)
            if self.i < len(self.toks) and self.toks[self.i] == '|':
                self.i += 1
                continue
            return s, f

    def seq(self):
        s = cur = self.new()
        while self.i < len(self.toks) and self.toks[self.i] not in ('|', ')'):
            a, b = self.post()
            self.add(cur, None, a)
            cur = b
        return s, cur

    def post(self):
        t = self.toks[self.i]
        self.i += 1
        if t == '(':
            a, b = self.alt()
            self.i += 1
        else:
            a = b = self.new()
            if t[0] == 'lit':
                for c in t[1]:
                    n = self.new()
                    self.add(b, frozenset([c]), n)
                    b = n
            else:
                b = self.new()
                self.add(a, t[1], b)
        while self.i < len(self.toks) and self.toks[self.i] in ('*', '+', '?'):
            op = self.toks[self.i]
            self.i += 1
            s, f = self.new(), self.new()
            self.add(s, None, a)
            self.add(b, None, f)
            if op in '*?':
                self.add(s, None, f)
            if op in '*+':
                self.add(b, None, a)
            a, b = s, f
        return a, b

    def close(self, ss):
        seen, work = set(ss), list(ss)
        while work:
            for y in self.eps.get(work.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return frozenset(seen)

    def char(self, q, c):
        return self.close([b for a in q for l, b in self.edges.get(a, ()) if isinstance(l, frozenset) and c in l])

    def token(self, q, name):
        return self.close([b for a in q for l, b in self.edges.get(a, ()) if l == name])

    def accepts(self, q):
        return self.final in q


EQ = "{S}* '=' {S}*"
MISC = "( {S} | '<!--' <Comment> | '<?' <PI> )*"
MISC1 = "( <Misc> | " + MISC + " )*"
MARKUP = "'<' ( '?' <PI> | '!--' <Comment> | '!ELEMENT' <elementdecl> | '!ATTLIST' <AttlistDecl> | '!ENTITY' <EntityDecl> | '!NOTATION' <NotationDecl> )"


def quoted(body, both=True):
    return ' | '.join('%s %s %s' % (q, body.replace('QUOTE', c), q) for q, c in (('\'"\'', '"'), ('"\'"', "'")))


# production -> (method, prefix that the caller may have read already, the rest, name of a flag variant)
GRAMMAR = {
    'Comment': ('ParseComment', ["<!--"], "( {Char\\-} | '-' {Char\\-} )* '-->'"),
    'PI': ('ParsePI', ["<?"], "<PITarget> ( '?>' | {S} {Char}* '?>' )"),
    'PITarget': ('ParsePITarget', None, "<Name>"),
    'CDSect': ('ParseCDSect', ["<![CDATA["], "{Char}* ']]>'"),
    'CharData': ('ParseCharData', None, "{Char\\<&}*"),
    'EntityValue': ('ParseEntityValue', None, quoted("( {Char\\%&QUOTE} | <Reference> | '%' <PEReference> | <INC> )*")),
    'AttValue': ('ParseAttValue', None, quoted("( {Char\\<&QUOTE} | <Reference> | <INC> )*")),
    'SystemLiteral': ('ParseSystemLiteral', None, quoted("{Char\\QUOTE}*")),
    'PubidLiteral': ('ParsePubidLiteral', None, quoted("{Pubid\\QUOTE}*")),
    'prolog': ('ParseProlog', None, "( '<?xml' <XMLDecl> )? %s ( '<!DOCTYPE' <doctypedecl> %s )?" % (MISC1, MISC1)),
    'XMLDecl': ('ParseXMLDecl', ["<?xml"], "{S}+ 'version' <VersionInfo> ( {S}+ 'encoding' <EncodingDecl> )? ( {S}+ 'standalone' <SDDecl> )? {S}* '?>'"),
    'VersionInfo': ('ParseVersionInfo', ["S+", "version"], EQ + " ( " + quoted("'1.' {Digit}+") + " )"),
    'EncodingDecl': ('ParseEncodingDecl', ["S+", "encoding"], EQ + " ( " + quoted("{EncStart} {Enc}*") + " )"),
    'SDDecl': ('ParseSDDecl', ["S+", "standalone"], EQ + " ( " + quoted("( 'yes' | 'no' )") + " )"),
    'Misc': ('ParseMisc', None, MISC),
    'doctypedecl': ('ParseDoctypedecl', ["<!DOCTYPE"],
                    "{S}+ <Name> ( {S}+ <ExternalID> )? {S}* ( '[' <intSubset> ']' {S}* )? <extSubset>? '>'"),
    'intSubset': ('ParseIntSubset', None, "( '<' <markupdecl> | '%' <PEReference> | {S} )*"),
    'markupdecl': ('ParseMarkupDecl', ["<"], MARKUP[4:]),
    'extSubset': ('ParseExtSubset', None, "( '<?xml' <TextDecl> )? <extSubsetDecl>"),
    'extSubsetDecl': ('ParseExtSubsetDecl', None, "( '<' <markupdecl> | '<![' <conditionalSect> | '%' <PEReference> | {S} )*"),
    'Element': ('ParseElement', None, "<EmptyElemTag> | <STag> <content> '</' <ETag>"),
    'STag': ('ParseSTag', None, "'<' <Name> ( {S}+ <Attribute> )* {S}* '/'? '>'"),
    'Attribute': ('ParseAttribute', None, "<Name> " + EQ + " <AttValue>"),
    'ETag': ('ParseETag', ["</"], "<Name> {S}* '>'"),
    'content': ('ParseContent', None, "( <CharData> | <Reference> | '<!--' <Comment> | '<![CDATA[' <CDSect> | '<?' <PI> | <Element> )*"),
    'elementdecl': ('ParseElementDecl', ["<!ELEMENT"], "{S}+ <Name> {S}+ <contentspec> {S}* '>'"),
    'contentspec': ('ParseContentSpec', None, "'EMPTY' | 'ANY' | '(' {S}* ( '#PCDATA' <Mixed> | <children> )"),
    'children': ('ParseChildren', ["(", "S*"], "<cp> {S}* ( <choice> | <seq> ) ( '?' | '*' | '+' )?"),
    'cp': ('ParseCP', None, "( <Name> | '(' {S}* <cp> {S}* ( <choice> | <seq> ) ) ( '?' | '*' | '+' )?"),
    'choice': ('ParseChoice', ["(", "S*", "<cp>", "S*"], "( '|' {S}* <cp> {S}* )+ ')'"),
    'seq': ('ParseSeq', ["(", "S*", "<cp>", "S*"], "( ',' {S}* <cp> {S}* )* ')'"),
    'Mixed': ('ParseMixed', ["(", "S*", "#PCDATA"], "{S}* ( ')' '*'? | ( '|' {S}* <Name> {S}* )+ ')*' )"),
    'AttlistDecl': ('ParseAttlistDecl', ["<!ATTLIST"], "{S}+ <Name> ( {S}+ <AttDef> )* {S}* '>'"),
    'AttDef': ('ParseAttDef', ["S+"], "<Name> {S}+ <AttType> {S}+ <DefaultDecl>"),
    'AttType': ('ParseAttType', None, "'CDATA' | 'NOTATION' <NotationType> | <Enumeration> | <TokenizedType>"),
    'StringType': ('ParseStringType', None, "'CDATA'"),
    'TokenizedType': ('ParseTokenizedType', None, "'ID' | 'IDREF' | 'IDREFS' | 'ENTITY' | 'ENTITIES' | 'NMTOKEN' | 'NMTOKENS'"),
    'EnumeratedType': ('ParseEnumeratedType', None, "'NOTATION' <NotationType> | <Enumeration>"),
    'NotationType': ('ParseNotationType', ["NOTATION"], "{S}+ '(' {S}* <Name> ( {S}* '|' {S}* <Name> )* {S}* ')'"),
    'Enumeration': ('ParseEnumeration', None, "'(' {S}* <Nmtoken> ( {S}* '|' {S}* <Nmtoken> )* {S}* ')'"),
    'DefaultDecl': ('ParseDefaultDecl', None, "'#REQUIRED' | '#IMPLIED' | ( '#FIXED' {S}+ )? <AttValue>"),
    'conditionalSect': ('ParseConditionalSect', ["<!["], "{S}* ( 'INCLUDE' <includeSect> | 'IGNORE' <ignoreSect> )"),
    'includeSect': ('ParseIncludeSect', ["<![", "S*", "INCLUDE"], "{S}* '[' <extSubsetDecl> ']]>'"),
    'ignoreSect': ('ParseIgnoreSect', ["<![", "S*", "IGNORE"], "{S}* '[' <ignoreSectContents> ']]>'"),
    'ignoreSectContents': ('ParseIgnoreSectContents', None, "<Ignore> ( '<![' <ignoreSectContents> ']]>' <Ignore> )*"),
    'Ignore': ('ParseIgnore', None, "{Char}*"),
    'CharRef': ('ParseCharRef', ["&"], "'#' ( {Digit}+ | 'x' {Hex}+ ) ';'"),
    'Reference': ('ParseReference', None, "'&' ( <CharRef> | <EntityRef> )"),
    'EntityRef': ('ParseEntityRef', ["&"], "<Name> ';'"),
    'PEReference': ('ParsePEReference', ["%"], "<Name> ';'"),
    'EntityDecl': ('ParseEntityDecl', ["<!ENTITY"], "{S}+ ( <GEDecl> | <PEDecl> )"),
    'GEDecl': ('ParseGEDecl', ["<!ENTITY", "S+"], "<Name> {S}+ <EntityDef> {S}* '>'"),
    'PEDecl': ('ParsePEDecl', ["<!ENTITY", "S+"], "'%' {S}+ <Name> {S}+ <PEDef> {S}* '>'"),
    'EntityDef': ('ParseEntityDef', None, "<EntityValue> | <ExternalID> ( {S}+ 'NDATA' <NDataDecl> )? {S}*"),
    'PEDef': ('ParsePEDef', None, "<EntityValue> | <ExternalID>"),
    'NDataDecl': ('ParseNDataDecl', ["S+", "NDATA"], "{S}+ <Name>"),
    'TextDecl': ('ParseTextDecl', ["<?xml"], "{S}+ ( 'version' <VersionInfo> {S}+ )? 'encoding' <EncodingDecl> {S}* '?>'"),
    'NotationDecl': ('ParseNotationDecl', ["<!NOTATION"], "{S}+ <Name> {S}+ <ExternalOrPublicID> {S}* '>'"),
    'PublicID': ('ParsePublicID', None, "'PUBLIC' {S}+ <PubidLiteral>"),
    'document': ('ParseDocument', None, "<prolog> <Element> " + MISC1),
}
EXTERNAL = "'SYSTEM' {S}+ <SystemLiteral> | 'PUBLIC' {S}+ <PubidLiteral> {S}+ <SystemLiteral>"
PUBLIC = EXTERNAL + " | 'PUBLIC' {S}+ <PubidLiteral> {S}*"
BYMETHOD = dict((v[0], k) for k, v in GRAMMAR.items())
PRIMITIVE = ('ParseLiteral', 'ParseS', 'ParseName', 'ParseNmtoken', 'NextChar', 'BuffText', 'ValidityError', 'CompatibilityError',
             'ProcessingError', 'GetSTagClass', 'IsS', 'CheckAttributes', 'CheckExpectedParticle', 'CheckEncoding', 'HandleData',
             'GetDocumentClass', 'PushEntity', 'GetExternalEntity', 'LookupPredefinedEntity', 'ParseNSAttributes', 'GetContext',
             'Standalone', 'DeclaredStandalone', 'MatchXMLName', 'ResolveExternalID', 'GetBuff', 'UnhandledData')
STRICT = {'dontCheckWellFormedness': FALSE, 'sgmlOmittag': FALSE, 'sgmlContent': FALSE, 'sgmlShorttag': FALSE, 'noPERefs': TOP,
          'sgmlNamecaseGeneral': FALSE, 'unicodeCompatibility': FALSE, 'stagBuffer': NONE}
NAME = ('tag', 'name')
XMLNAME = const('xml')


class Grammar(Client):
    """facts: (automaton state or a text saying what went wrong, current character, recent characters, marks)"""
    max_states = 400
    max_depth = 6

    def __init__(self, prog, parser, nfas, cls):
        self.prog, self.parser, self.nfas, self.cls = prog, parser, nfas, cls
        self.nfa = None
        self.found = {}
        self.stats = {'tokens': 0, 'characters': 0}
        self.mode = None
        self.modes = {}

    # ---- plumbing
    def relevant(self, ip, func):
        return func.cls is not None and func.cls in self.cls and func.name not in PRIMITIVE and func.name not in BYMETHOD \
            and func.name != 'ParseExternalID'

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def truthiness(self, atom):
        if atom[0] in ('cc', 'oc'):
            if atom[1] == frozenset([None]):
                return False
            return None if None in atom[1] else True
        if atom[0] == 'len':
            return atom[1] > 0
        if atom[0] == 'tag':
            return True
        return truth(atom)

    def key_extra(self, st, fr):
        return tuple(sorted((k, tuple(sorted(map(repr, v)))) for k, v in st.env.items() if k.endswith('.children') or
                            any(a[0] in ('cc', 'oc', 'tag', 'len') for a in v) and k not in ('self.theChar',) and not k.startswith('$')))

    # ---- consuming
    def at(self, fr, node):
        return '%s:%d' % (fr.module.rel, getattr(node, 'lineno', fr.func.node.lineno))

    def moved(self, st, q, ch=EVERY, hist=(), drop=True, old=None):
        _, _, _, marks = st.facts
        if drop:
            marks = marks - set(['nested', 'same'])
        return State((q, frozenset(ch), hist, marks), self.age(st.env, old if old is not None else st.facts[1]))

    def chars(self, st, cs, what, fr, node, keep=False):
        """consume one of the characters cs"""
        q, ch, hist, marks = st.facts
        self.stats['characters'] += 1
        groups = {}
        for c in cs:
            if isinstance(q, str):
                t = q
            else:
                t = self.nfa.char(q, c)
                if not t:
                    t = '%s consumes %s where the production allows something else' % (self.at(fr, node), repr(c) if len(cs) < 4 else 'a character')
            groups.setdefault(t if not isinstance(t, str) else 'dead', []).append((t, c))
        out = []
        for g, l in groups.items():
            t = min(x for x, c in l) if g == 'dead' else g
            h = (hist + ((l[0][1], q),))[-3:] if len(cs) == 1 else ()
            out.append(self.moved(st, t, EVERY, h, old=frozenset(c for x, c in l)))
        return out

    def literal(self, st, text, fr, node):
        cur = [st]
        for c in text:
            cur = [t for s in cur for t in self.chars(s, [c], text, fr, node)]
        return cur

    def token(self, st, name, fr, node):
        q = st.facts[0]
        self.stats['tokens'] += 1
        if not isinstance(q, str):
            t = self.nfa.token(q, name)
            if not t:
                t = '%s reads %s where the production allows something else' % (self.at(fr, node), 'the text of an entity' if name == 'INC' else name)
            q = t
        return self.moved(st, q)

    def space(self, st, fr, node, least):
        """white space: every number of characters"""
        out, seen = [], set()
        cur = [st]
        if not least:
            out.append(st)
        while cur:
            nxt = []
            for s in cur:
                for t in self.chars(s, sorted(SPACE), 'S', fr, node):
                    t = self.moved(t, t.facts[0])
                    if t.facts not in seen:
                        seen.add(t.facts)
                        out.append(t)
                        if not isinstance(t.facts[0], str):
                            nxt.append(t)
            cur = nxt
        # not followed by more white space
        return [s.with_facts((s.facts[0], s.facts[1] - SPACE, s.facts[2], s.facts[3])) for s in out]

    def prefix(self, st, parts, fr, node):
        cur = [st]
        for p in parts:
            if p in ('S+', 'S*'):
                cur = [t for s in cur for t in self.space(s, fr, node, p == 'S+')]
            elif p[0] == '<' and p[-1] == '>' and len(p) > 2:
                cur = [self.token(s, p[1:-1], fr, node) for s in cur]
            else:
                cur = [t for s in cur for t in self.literal(s, p, fr, node)]
        return cur

    # ---- the current character
    def is_cur(self, e, ip=None, fr=None, st=None):
        if e is None:
            return False
        if e.t == 'Name' and st is not None:
            v = self.value_of(ip, fr, st, e)
            return len(v) == 1 and next(iter(v))[0] == 'cc'
        return e.t == 'Attribute' and e.attr == 'theChar' and e.value.t == 'Name'

    @staticmethod
    def age(env, ch):
        if not any(a[0] == 'cc' for v in env.values() for a in v):
            return env
        return dict((k, frozenset(('oc', ch) if a[0] == 'cc' else a for a in v)) for k, v in env.items())

    def on_enter(self, ip, fr, st, env):
        return st.facts, env, (st.facts,)

    def on_leave(self, token, facts, v, cenv, env):
        old = token[0]
        if facts[0] != old[0] or facts[2] != old[2] or not facts[1] <= old[1]:
            env = self.age(env, old[1])
        return facts, v, cenv, env

    def attr_load(self, ip, fr, st, node, base, p):
        if not (node.value.t == 'Name' and fr.func.params and node.value.id == fr.func.params[0]):
            if node.attr == 'notation':
                return [(self.mark(st, 'parsed'), av(NONE)), (st, av(TRUTHY))]
            if node.attr == 'children' and p and p not in st.env and any(a[0] == 'inst' for a in base):
                return [(st, av(('len', 0)))]
            return None
        if node.attr == 'theChar':
            return [(st, av(('cc', st.facts[1])))]
        if node.attr in STRICT:
            return [(st, STRICT[node.attr] if STRICT[node.attr] is TOP else av(*(STRICT[node.attr] if isinstance(STRICT[node.attr], frozenset) else [STRICT[node.attr]])))]
        if node.attr == 'refMode':
            v = self.modes.get(self.mode)
            return [(st, v if v is not None else TOP)]
        if node.attr == 'entity':
            return [(st, av(('tag', 'entity')))]
        return None

    def list_display(self, ip, fr, st, node, values):
        return av(('len', 0)) if not values else None

    def narrow(self, st, keep):
        q, ch, h, m = st.facts
        k = ch & keep
        return [st.with_facts((q, k, h, m))] if k else []

    def members(self, fr, e):
        """characters in a literal collection"""
        if e.t == 'Name':
            w = [n.value for n in walk_own(fr.func.node) if n.t == 'Assign' and any(t.t == 'Name' and t.id == e.id for t in n.targets)]
            if not w and e.id not in fr.func.locals:
                w = [n.value for n in fr.module.tree.body if n.t == 'Assign' and any(t.t == 'Name' and t.id == e.id for t in n.targets)]
            return self.members(fr, w[0]) if len(w) == 1 and w[0].t != 'Name' else None
        if e.t == 'Attribute' and fr.func.cls is not None:
            a = fr.func.cls.find_attr(e.attr)
            return self.members(fr, a[1]) if a and a[1] is not None and a[1].t not in ('Name', 'Attribute') else None
        if e.t in ('Dict', 'List', 'Set', 'Tuple'):
            es = e.keys if e.t == 'Dict' else e.elts
            if all(x.t == 'Str' for x in es):
                return set(x.s for x in es)
        return None

    def value_of(self, ip, fr, st, e):
        r = ip.ev(e, st, fr)
        return r[0][1] if len(r) == 1 else TOP

    def refine(self, ip, fr, st, test, sense):
        if test.t in ('Name', 'Attribute') and self.is_cur(test, ip, fr, st):
            return self.narrow(st, EVERY - set([None]) if sense else frozenset([None]))
        if test.t != 'Compare' or len(test.ops) != 1:
            return None
        op = test.ops[0]
        a, b = test.left, test.comparators[0]
        if op in ('NotEq', 'IsNot', 'NotIn'):
            sense = not sense
            op = {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[op]
        if op in ('Eq', 'Is'):
            if self.is_cur(b, ip, fr, st) and not self.is_cur(a, ip, fr, st):
                a, b = b, a
            if self.is_cur(a, ip, fr, st):
                v = self.value_of(ip, fr, st, b)
                pos, single = set(), True
                for x in v:
                    if x == NONE:
                        pos.add(None)
                    elif x[0] == 'k':
                        pos.add(x[2])
                    elif x[0] in ('cc', 'oc'):
                        pos |= x[1]
                        single = single and len(x[1]) == 1
                    else:
                        return None
                if sense:
                    return self.narrow(st, frozenset(pos))
                if len(v) == 1 and single:
                    return self.narrow(st, EVERY - frozenset(pos))
                return None
            va, vb = self.value_of(ip, fr, st, a), self.value_of(ip, fr, st, b)
            for x, y, e in ((va, vb, a), (vb, va, b)):
                if e.t == 'Name' and len(x) == 1 and next(iter(x))[0] == 'oc' and len(y) == 1 and next(iter(y))[0] in ('k', 'none'):
                    z = next(iter(y))
                    z = None if z == NONE else z[2]
                    was = next(iter(x))[1]
                    now = was & frozenset([z]) if sense else was - frozenset([z])
                    return [ip.refine_path(st, e.id, av(('oc', now)))] if now else []
            ents = [x for x in (va, vb) if any(y == ('tag', 'entity') for y in x)]
            if len(ents) == 2 and self.prod in ('AttValue', 'EntityValue'):
                return [self.mark(self.unmark(st, 'same', 'nested'), 'same' if sense else 'nested')]
            names = sorted(y[1] for x in (va, vb) for y in x if y[0] == 'tag')
            if names == ['endname', 'startname'] and sense:
                return [self.mark(st, 'match')]
            return None
        if op == 'In':
            if self.is_cur(a, ip, fr, st):
                v = self.value_of(ip, fr, st, b)
                chars = self.members(fr, b)
                if chars is not None or len(v) == 1:
                    x = next(iter(v))
                    if x[0] == 'k' and isinstance(x[2], str):
                        chars = set(x[2])
                    elif x[0] == 'tup':
                        chars = set(z[2] for y in x[1] for z in y if z[0] == 'k')
                    if chars is not None:
                        return self.narrow(st, frozenset(chars) if sense else EVERY - chars)
                return None
            va = self.value_of(ip, fr, st, a)
            if any(x == ('tag', 'attname') for x in va) and not sense:
                return [self.mark(st, 'unique')]
        return None

    def mark(self, st, m):
        q, ch, h, ms = st.facts
        return st.with_facts((q, ch, h, ms | set([m])))

    def unmark(self, st, *m):
        q, ch, h, ms = st.facts
        return st.with_facts((q, ch, h, ms - set(m)))

    def unpack(self, atom, n):
        if atom == ('tag', 'stag') or atom == ('tag', 'emptytag'):
            return ('tup', (av(('tag', 'startname')), av(TRUTHY), av(TRUE if atom[1] == 'emptytag' else FALSE)))
        if atom == ('tag', 'attribute'):
            return ('tup', (av(('tag', 'attname')), TOP))
        return None

    def bad(self, fr, node, kind, text):
        k = '%s|%s' % (self.prod, kind)
        if k not in self.found:
            self.found[k] = '%s in %s: %s' % (self.at(fr, node), fr.func.qname, text)

    # ---- calls
    def call(self, ip, fr, st, node, callee, recv_path, args, kwargs):
        name = node.func.attr if node.func.t == 'Attribute' else node.func.id if node.func.t == 'Name' else None
        mine = node.func.t == 'Attribute' and node.func.value.t == 'Name' and fr.func.params and node.func.value.id == fr.func.params[0] \
            and fr.func.cls in self.cls
        if name in PRED and (mine or node.args):
            arg = node.args[0] if node.args else None
            if arg is None or self.is_cur(arg, ip, fr, st) or args and args[0] == av(('cc', st.facts[1])):
                good = frozenset(PRED[name])
                return [(s, av(TRUE)) for s in self.narrow(st, good)] + [(s, av(FALSE)) for s in self.narrow(st, EVERY - good)]
            if name == 'IsChar' and any(x == ('tag', 'charref') for x in args[0]):
                return [(self.mark(st, 'legal'), av(TRUE)), (st, av(FALSE))]
            return None
        if name == 'Test' and node.func.value.t in ('Name', 'Attribute') and node.args and self.is_cur(node.args[0], ip, fr, st):
            c = node.func.value.id if node.func.value.t == 'Name' else node.func.value.attr
            if c in PREDCLASS:
                good = frozenset(PREDCLASS[c])
                return [(s, av(TRUE)) for s in self.narrow(st, good)] + [(s, av(FALSE)) for s in self.narrow(st, EVERY - good)]
        if name == 'unichr':
            return [(st, av(('tag', 'charref')))]
        if name in ('IsOpen', 'IsExternal'):
            m = 'closed' if name == 'IsOpen' else 'internal'
            return [(st, av(TRUE)), (self.mark(st, m), av(FALSE))]
        if name in ('has_key', 'get', '__contains__') and args and args[0] == av(('tag', 'attname')):
            return [(st, av(TRUTHY)), (self.mark(st, 'unique'), av(NONE if name == 'get' else FALSE))]
        if name == 'append' and recv_path and (recv_path.endswith('.children') or any(a[0] == 'len' for a in st.env.get(recv_path, ()))):
            v = st.env.get(recv_path, av(('len', 0)))
            n = [a[1] for a in v if a[0] == 'len']
            if len(n) == 1:
                return [(st.set(recv_path, av(('len', min(2, n[0] + 1)))), av(NONE))]
            return None
        if name == 'len' and args and len(args[0]) == 1 and next(iter(args[0]))[0] == 'len':
            return [(st, av(const(next(iter(args[0]))[1])))]
        if name == 'join' and args:
            v = args[0] if len(args[0]) == 1 and next(iter(args[0]))[0] == 'len' else args[1] if len(args) > 1 else TOP
            if len(v) == 1 and next(iter(v))[0] == 'len':
                return [(st, av(TRUTHY if next(iter(v))[1] else const('')))]
        if name == 'lower' and node.func.t == 'Attribute':
            v = self.value_of(ip, fr, st, node.func.value)
            if any(x[0] == 'tag' or x == XMLNAME for x in v):
                return [(st, v)]
            if v == av(NONE):
                ip.throw(fr, st, ANY, node)
                return []
        if not mine:
            return None
        if name == 'NextChar':
            q, ch, h, marks = st.facts
            if 'nested' in marks and not isinstance(q, str) and ch <= frozenset('"\''):
                return [(self.token(st, 'INC', fr, node), av(NONE))]
            out = []
            cs = sorted(x for x in ch if x is not None)
            if self.prod in ('AttValue', 'EntityValue') and 'same' not in marks and not isinstance(q, str) and ch <= frozenset('"\'') \
                    and q != self.nfa.start and any(self.nfa.accepts(self.nfa.char(q, c)) for c in cs):
                self.bad(fr, node, 'entity', 'a quotation mark in the text of an entity may end the value')
            if cs:
                out.extend((s, av(NONE)) for s in self.chars(st, cs, None, fr, node))
            if None in ch:
                out.append((st.with_facts((q, frozenset([None]), (), marks)), av(NONE)))
            return out
        if name == 'ParseLiteral':
            a = args[0] if args else TOP
            if not all(x[0] == 'k' and isinstance(x[2], str) for x in a):
                raise AnalysisBroken('%s: a literal that is not constant' % self.at(fr, node))
            out = []
            for x in sorted(a, key=repr):
                lit = x[2]
                if not lit or lit[0] in st.facts[1]:
                    out.extend((s, av(TRUE)) for s in self.literal(st, lit, fr, node))
                if len(lit) == 1:
                    out.extend((s, av(FALSE)) for s in self.narrow(st, EVERY - set(lit)))
                elif lit:
                    out.append((st, av(FALSE)))
            return out
        if name == 'BuffText':
            a = args[0] if args else TOP
            q, ch, h, marks = st.facts
            if len(a) == 1 and next(iter(a))[0] == 'k' and isinstance(next(iter(a))[2], str):
                text = next(iter(a))[2]
                n = len(text)
                if n and len(h) >= n and ''.join(c for c, _ in h[-n:]) == text:
                    return [(st.with_facts((h[-n][1], frozenset([text[0]]), h[:-n], marks)), av(NONE))]
                return [(st.with_facts((q, frozenset([text[0]]) if text else ch, (), marks)), av(NONE))]
            return [(st.with_facts((q, EVERY, (), marks)), av(NONE))]
        if name == 'ParseS':
            # white space of one or more characters, or none
            out = []
            if st.facts[1] & SPACE:
                out.extend((s, av(TRUTHY)) for s in self.space(st, fr, node, True))
            out.extend((s, av(const(''))) for s in self.narrow(st, EVERY - SPACE))
            return out
        if name in ('ParseName', 'ParseNmtoken'):
            first = NAMESTART if name == 'ParseName' else NAMECHAR
            out = [(s, av(NONE)) for s in self.narrow(st, EVERY - first)]
            if st.facts[1] & first:
                tok = 'Name' if name == 'ParseName' else 'Nmtoken'
                out.append((self.token(st, tok, fr, node), av(NAME)))
                if self.prod in ('PITarget',):
                    s = self.token(st, tok, fr, node)
                    if not isinstance(s.facts[0], str):
                        s = s.with_facts(('%s accepts the name xml' % self.at(fr, node),) + s.facts[1:])
                    out.append((s, av(XMLNAME)))
            return out
        if name == 'GetSTagClass':
            return [(st, av(('tup', (av(TRUTHY), TOP, av(FALSE)))))]
        if name == 'LookupPredefinedEntity':
            return [(self.mark(st, 'found'), av(TRUTHY)), (st, av(NONE))]
        if name == 'Standalone':
            return [(st, av(TRUE)), (self.mark(st, 'declared'), av(FALSE))]
        if name == 'PushEntity':
            if self.prod == 'EntityRef':
                marks = st.facts[3]
                if 'parsed' not in marks:
                    self.bad(fr, node, 'parsed', 'the text of an entity is included without checking that it is a parsed entity')
                if 'closed' not in marks:
                    self.bad(fr, node, 'closed', 'the text of an entity is included without checking that it is not included in itself')
                if self.mode == 'attribute' and 'internal' not in marks:
                    self.bad(fr, node, 'internal', 'an external entity is included in the value of an attribute')
            if self.prod == 'PEReference' and 'closed' not in st.facts[3]:
                self.bad(fr, node, 'closed', 'the text of an entity is included without checking that it is not included in itself')
            return [(self.mark(st, 'found'), av(NONE))]
        if name in PRIMITIVE:
            return [(st, TOP)]
        if name == 'ParseExternalID':
            flag = args[0] if args else kwargs[list(kwargs)[0]] if kwargs else av(FALSE)
            out = []
            for x in flag:
                if truth(x) is not False:
                    out.append((self.token(st, 'ExternalOrPublicID', fr, node), av(TRUTHY)))
                if truth(x) is not True:
                    out.append((self.token(st, 'ExternalID', fr, node), av(TRUTHY)))
            return out
        if name in BYMETHOD and callee is not None and callee[0] in ('bound', 'func'):
            prod = BYMETHOD[name]
            pre = GRAMMAR[prod][1]
            out = []
            flag = av(FALSE)
            if pre is not None:
                f = callee[1]
                first = f.params[1] if len(f.params) > 1 else None
                flag = args[0] if args else kwargs.get(first, av(FALSE))
            for x in sorted(flag, key=repr):
                if pre is not None and truth(x) is not True:
                    out.extend(self.prefix(st, pre, fr, node))
                if pre is None or truth(x) is not False:
                    out.append(st)
            res = []
            for s in out:
                if prod == 'STag':
                    for t, v in (('STag', ('tag', 'stag')), ('EmptyElemTag', ('tag', 'emptytag'))):
                        res.append((self.token(s, t, fr, node), av(v)))
                    continue
                if prod == 'Attribute':
                    if 'unnamed' in s.facts[3] and 'unique' not in s.facts[3]:
                        self.bad(fr, node, 'unique', 'a second attribute is read before the name of the first was looked up')
                    s = self.mark(self.unmark(s, 'unique'), 'unnamed')
                    res.append((self.token(s, prod, fr, node), av(('tag', 'attribute'))))
                    continue
                if prod == 'ETag':
                    # a mismatched tag followed by another: judged where the element ends
                    res.append((self.mark(self.unmark(self.token(s, prod, fr, node), 'match'), 'tag'), av(('tag', 'endname'))))
                    continue
                v = {'Element': av(TRUE), 'content': av(TRUE), 'CharData': av(NONE), 'CharRef': TOP, 'Reference': TOP, 'EntityRef': TOP, 'PEReference': TOP}.get(prod, av(TRUTHY))
                t = self.token(s, prod, fr, node)
                if prod == 'CharData':
                    res.extend((x, av(NONE)) for x in self.narrow(t, frozenset('<&]') | set([None])))
                elif prod == 'content':
                    res.extend((x, v) for x in self.narrow(t, frozenset(['<', None])))
                else:
                    res.append((t, v))
            return res
        return None


def judge(cl, ip, f, c, prod, nfa, env, start, variant):
    cl.nfa, cl.prod = nfa, prod
    ip.memo.clear()
    ds = f.node.args.defaults or []
    for p, d in zip(f.params[len(f.params) - len(ds):], ds):
        if p not in env:
            env = dict(env, **{p: ip.const_value(d)})
    o = ip.run(f, c, env=env, facts=(start, EVERY, (), frozenset()))
    fall = [(s, None, f.node) for s in o.normal]
    n = 0
    for s, v, node in o.ret + fall:
        n += 1
        q, ch, h, marks = s.facts

        class fr(object):
            func, module = f, f.module
        if isinstance(q, str):
            cl.bad(fr, node, 'text', 'accepted although %s' % q)
        elif not nfa.accepts(q):
            cl.bad(fr, node, 'end', 'accepted before the production is complete')
        if prod == 'document' and ch != frozenset([None]):
            cl.bad(fr, node, 'rest', 'accepted with text after the document')
        if prod == 'Element' and 'match' not in marks and not isinstance(q, str) and nfa.accepts(q) and 'tag' in marks:
            cl.bad(fr, node, 'match', 'accepted with an end tag of another name')
        if prod == 'STag' and 'unnamed' in marks and 'unique' not in marks:
            cl.bad(fr, node, 'unique', 'accepted without looking up the name of an attribute among those read')
        if prod == 'CharRef' and cl.mode == 'content' and 'legal' not in marks:
            cl.bad(fr, node, 'legal', 'accepted without checking that the character is legal')
        if prod == 'EntityRef' and cl.mode in ('content', 'attribute') and not marks & set(['found', 'declared']):
            cl.bad(fr, node, 'declared', 'an entity that is not declared is accepted in a standalone document')
    return n


def analyse(prog, pid, tier):
    r = Result()
    parser = prog.cls('pyslet.xml20081126.parser', 'XMLParser')
    classes = [parser] + [c for c in parser.all_subclasses() if not c.module.name.startswith('legacy')]
    cl = Grammar(prog, parser, None, set(classes))
    done, exits = 0, 0
    files = set()
    for m, n in (('content', 'RefModeInContent'), ('attribute', 'RefModeInAttributeValue')):
        a = parser.find_attr(n)
        if a is None or a[1] is None:
            raise AnalysisBroken('reference mode %s not found' % n)
    ip = Interp(prog, cl)
    for m, n in (('content', 'RefModeInContent'), ('attribute', 'RefModeInAttributeValue')):
        cl.modes[m] = ip.const_value(parser.find_attr(n)[1])
    for c in classes:
        for prod, (meth, pre, rest) in sorted(GRAMMAR.items()):
            f = c.find(meth)
            if f is None:
                raise AnalysisBroken('%s not found' % meth)
            if f.cls is not c:
                continue
            files.add(f.module.rel)
            nfa = NFA(rest)
            variants = [({}, nfa, nfa.start)]
            if pre is not None and len(f.params) > 1:
                text = ' '.join("'%s'" % p if p not in ('S+', 'S*') and not (p[0] == '<' and p[-1] == '>' and len(p) > 2) else
                                p if p[0] == '<' else '{S}' + p[1] for p in pre)
                full = NFA('%s ( %s )' % (text, rest))
                e0 = {f.params[1]: av(FALSE) if f.params[1].startswith('got') and not f.params[1].endswith('Entity') else av(NONE)}
                variants = [({f.params[1]: av(TRUTHY)}, nfa, nfa.start), (e0, full, full.start)]
            for env, a, start in variants:
                modes = (None,)
                if prod in ('CharRef', 'EntityRef'):
                    modes = (None, 'content', 'attribute')
                for m in modes:
                    cl.mode = m
                    k = judge(cl, ip, f, c, prod, a, env, start, None)
                    exits += k
                    if not k:
                        raise AnalysisBroken('no way through %s was followed' % f.qname)
                    cl.mode = None
                    done += 1
        f = c.methods.get('ParseExternalID')
        if f is not None:
            for flag, text in ((FALSE, EXTERNAL), (TRUE, PUBLIC)):
                a = NFA(text)
                exits += judge(cl, ip, f, c, 'ExternalID', a, {f.params[1]: av(flag)}, a.start, None)
                done += 1
    for k, text in sorted(cl.found.items()):
        r.add(k, '%s: %s' % (k.split('|')[0], text))
    r.floor('productions', done, 90)
    r.floor('tokens', cl.stats['tokens'], 200)
    r.coverage['characters'] = cl.stats['characters']
    r.coverage['exits'] = exits
    r.files = sorted(files)
    r.rules = ['a parsing method returns only after reading a text its production allows',
               'an end tag has the name of the start tag, an attribute name is new, a character reference is legal',
               'an entity is included only when it is parsed, declared, not open already, and internal in an attribute value']
    r.samples = ['%s ::= %s' % (k, v[2]) for k, v in sorted(GRAMMAR.items())[:8]]
    r.explanation = 'Every production was followed in %d situations to %d ends.' % (done, exits)
    r.assumptions = ['NextChar, BuffText, ParseLiteral, ParseS, ParseName and ParseNmtoken read what their documentation says']
    return r
