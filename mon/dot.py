"""A strict parser of the DOT language (Graphviz grammar), and the decoding of
values as gimpy writes them.  Written from the language definition; used as
the independent reader of to_string()."""
import re


class DotError(Exception):
    pass


KEYWORDS = {'node', 'edge', 'graph', 'digraph', 'subgraph', 'strict'}
_BARE = re.compile('[A-Za-z_\u0080-\U0010ffff][0-9A-Za-z_\u0080-\U0010ffff]*')
_NUM = re.compile(r'-?(\.[0-9]+|[0-9]+(\.[0-9]*)?)')


class Tok(object):
    __slots__ = ('kind', 'text')

    def __init__(self, kind, text):
        self.kind, self.text = kind, text

    def __repr__(self):
        return '%s %r' % (self.kind, self.text)


def tokens(s):
    i, n = 0, len(s)
    out = []
    bol = True
    while i < n:
        c = s[i]
        if c in ' \t\r\n':
            bol = bol and c != '\n' or c == '\n'
            i += 1
            continue
        if c == '#' and (i == 0 or s[i - 1] == '\n'):
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        if s.startswith('/*', i):
            j = s.find('*/', i)
            if j < 0:
                raise DotError('unterminated comment')
            i = j + 2
            continue
        if s.startswith('->', i) or s.startswith('--', i):
            out.append(Tok('op', s[i:i + 2]))
            i += 2
            continue
        if c == '"':
            j = i + 1
            buf = []
            while True:
                if j >= n:
                    raise DotError('unterminated string')
                if s[j] == '\\' and j + 1 < n:
                    if s[j + 1] == '"':
                        buf.append('"')
                        j += 2
                        continue
                    if s[j + 1] == '\\':
                        buf.append('\\\\')
                        j += 2
                        continue
                if s[j] == '"':
                    break
                buf.append(s[j])
                j += 1
            out.append(Tok('id', ''.join(buf)))
            i = j + 1
            continue
        if c == '<':
            depth, j = 1, i + 1
            while depth:
                if j >= n:
                    raise DotError('unterminated HTML string')
                depth += (s[j] == '<') - (s[j] == '>')
                j += 1
            out.append(Tok('html', s[i:j]))
            i = j
            continue
        m = _BARE.match(s, i)
        if m:
            w = m.group(0)
            out.append(Tok('kw' if w.lower() in KEYWORDS else 'id', w))
            i = m.end()
            if i < n and s[i] == '"':
                raise DotError('string right after %r' % w)
            continue
        m = _NUM.match(s, i)
        if m:
            out.append(Tok('id', m.group(0)))
            i = m.end()
            if i < n and (_BARE.match(s, i) or s[i] in '."'):
                raise DotError('badly delimited number %r' % m.group(0))
            continue
        if c in '{}[]=;,:+':
            out.append(Tok(c, c))
            i += 1
            continue
        raise DotError('character %r' % c)
    return out


class Graph(object):
    def __init__(self):
        self.directed = False
        self.name = None
        self.attrs = []          # [(key, value)] as stated
        self.nodes = []          # [(name, {attrs}, subgraph or None)]
        self.edges = []          # [(tail, head, {attrs}, subgraph or None)]
        self.subs = []           # [(name, [(key, value)], {node defaults})]


class Parser(object):
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else Tok('end', '')

    def take(self, kind=None):
        x = self.peek()
        if kind is not None and x.kind != kind:
            raise DotError('expected %s, found %r' % (kind, x))
        self.i += 1
        return x

    def ident(self):
        x = self.peek()
        if x.kind not in ('id', 'html'):
            raise DotError('expected an ID, found %r' % x)
        self.i += 1
        return x.text

    def parse(self):
        g = Graph()
        x = self.take('kw')
        if x.text.lower() == 'strict':
            raise DotError('strict graph')
        if x.text.lower() not in ('graph', 'digraph'):
            raise DotError('starts with %r' % x)
        g.directed = x.text.lower() == 'digraph'
        if self.peek().kind in ('id', 'html'):
            g.name = self.ident()
        self.take('{')
        self.statements(g, None)
        self.take('}')
        if self.peek().kind != 'end':
            raise DotError('text after the graph: %r' % self.peek())
        return g

    def attr_list(self):
        out = []
        while self.peek().kind == '[':
            self.take('[')
            while self.peek().kind != ']':
                k = self.ident()
                self.take('=')
                out.append((k, self.ident()))
                if self.peek().kind in (',', ';'):
                    self.take()
            self.take(']')
        keys = [k for k, v in out]
        if len(set(keys)) != len(keys):
            raise DotError('attribute stated twice in %r' % (out,))
        return dict(out)

    def statements(self, g, sub):
        attrs = g.attrs if sub is None else sub[1]
        while self.peek().kind not in ('}', 'end'):
            x = self.peek()
            if x.kind == ';':
                self.take()
                continue
            if x.kind == 'kw':
                w = x.text.lower()
                self.take()
                if w == 'subgraph':
                    if sub is not None:
                        raise DotError('nested subgraph')
                    name = self.ident()
                    s = (name, [], {})
                    g.subs.append(s)
                    self.take('{')
                    self.statements(g, s)
                    self.take('}')
                elif w == 'node' and sub is not None:
                    sub[2].update(self.attr_list())
                else:
                    raise DotError('statement %r' % x)
                continue
            a = self.ident()
            nxt = self.peek()
            if nxt.kind == '=':
                self.take()
                attrs.append((a, self.ident()))
            elif nxt.kind == 'op':
                self.take()
                if nxt.text != ('->' if g.directed else '--'):
                    raise DotError('edge operator %s' % nxt.text)
                b = self.ident()
                g.edges.append((a, b, self.attr_list(),
                                sub[0] if sub else None))
            elif nxt.kind in ('[', ';', '}'):
                g.nodes.append((a, self.attr_list(),
                                sub[0] if sub else None))
            else:
                raise DotError('after %r: %r' % (a, nxt))


def parse(text):
    return Parser(text).parse()


_QUOTED = re.compile(r'"([^"\\]|\\.)*"\Z', re.S)


def written(value):
    """what a reader must get back for a value or name"""
    s = str(value)
    if len(s) >= 2 and _QUOTED.match(s):
        return s[1:-1].replace('\\"', '"')
    return s.replace('\n', '\\n').replace('\r', '\\r')
