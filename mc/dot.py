"""A small parser for the part of the DOT language GiMPy writes (graphviz.org/doc/info/lang.html).

parse(text) -> {'type', 'name', 'attrs', 'nodes': {id: attrs}, 'edges': [(u, v, attrs)],
                'clusters': [{'name', 'attrs', 'node_attrs', 'nodes': [..], 'edges': [..]}]}
IDs are decoded the way graphviz reads them: in a quoted string \\" is a quote, a backslash-newline joins
lines, every other backslash is kept. Ports are not split off (':' in an unquoted ID separates ports and is
rejected here: node names with ports are outside the properties)."""
import re


class DotError(Exception):
    pass


KEYWORDS = ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')
_TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<op>->|--|[{}\[\];,=:+])'''
                  r'''|(?P<num>-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))(?![A-Za-z_0-9.\x80-\U0010ffff])'''
                  r'''|(?P<id>[A-Za-z_\x80-\U0010ffff][A-Za-z_0-9\x80-\U0010ffff]*)'''
                  r'''|"(?P<q>(?:[^"\\]|\\.)*)"''', re.S)


def lex(s):
    i = 0
    out = []
    while i < len(s):
        if s[i] == '<':
            d = 0
            for j in range(i, len(s)):
                d += (s[j] == '<') - (s[j] == '>')
                if d == 0:
                    break
            else:
                raise DotError('unclosed HTML string')
            out.append(('id', s[i:j + 1], True))
            i = j + 1
            continue
        m = _TOK.match(s, i)
        if not m or m.end() == i:
            raise DotError('unexpected %r' % s[i:i + 20])
        i = m.end()
        if m.group('op'):
            out.append(('op', m.group('op'), False))
        elif m.group('num') is not None:
            out.append(('id', m.group('num'), True))
        elif m.group('id') is not None:
            w = m.group('id')
            out.append(('kw' if w.lower() in KEYWORDS else 'id', w, False))
        elif m.group('q') is not None:
            q = m.group('q').replace('\\\n', '')
            # graphviz: only \" is an escape at this level
            q = re.sub(r'\\(["])', r'\1', q)
            out.append(('id', q, True))
    return out


class P(object):
    def __init__(self, s):
        self.t, self.i = lex(s), 0

    def peek(self, k=0):
        return self.t[self.i + k][:2] if self.i + k < len(self.t) else ('end', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def op(self, o):
        x = self.next()
        if x != ('op', o):
            raise DotError('expected %r, got %r' % (o, x))

    def ident(self):
        k, v = self.next()
        if k != 'id':
            raise DotError('expected an ID, got %r' % ((k, v),))
        return v

    def attr_list(self):
        r = {}
        while self.peek() == ('op', '['):
            self.op('[')
            while self.peek() != ('op', ']'):
                a = self.ident()
                self.op('=')
                v = self.ident()
                if a in r and r[a] != v:
                    raise DotError('attribute %r given twice' % a)
                r[a] = v
                if self.peek() in (('op', ','), ('op', ';')):
                    self.next()
            self.op(']')
        return r

    def body(self, g, out):
        self.op('{')
        while self.peek() != ('op', '}'):
            k, v = self.peek()
            if k == 'kw' and v.lower() in ('node', 'edge', 'graph'):
                self.next()
                a = self.attr_list()
                out.setdefault(v.lower() + '_attrs', {}).update(a)
            elif k == 'kw' and v.lower() == 'subgraph':
                self.next()
                c = {'name': self.ident(), 'attrs': {}, 'nodes': [], 'edges': []}
                g['clusters'].append(c)
                self.body(g, c)
            elif k == 'id':
                name = self.ident()
                n = self.peek()
                if n == ('op', '='):
                    self.next()
                    out['attrs'][name] = self.ident()
                elif n in (('op', '->'), ('op', '--')):
                    if (n[1] == '->') != (g['type'] == 'digraph'):
                        raise DotError('edge operator %s in a %s' % (n[1], g['type']))
                    self.next()
                    head = self.ident()
                    a = self.attr_list()
                    g['edges'].append((name, head, a))
                    if out is not g:
                        out['edges'].append((name, head))
                else:
                    a = self.attr_list()
                    if name in g['nodes']:
                        raise DotError('node %r listed twice' % name)
                    g['nodes'][name] = a
                    if out is not g:
                        out['nodes'].append(name)
            else:
                raise DotError('unexpected %r' % ((k, v),))
            if self.peek() == ('op', ';'):
                self.next()
        self.op('}')


def parse(s):
    p = P(s)
    k, v = p.next()
    if k != 'kw' or v not in ('graph', 'digraph'):
        raise DotError('not a graph: %r' % v)
    g = {'type': v, 'name': None, 'attrs': {}, 'nodes': {}, 'edges': [], 'clusters': []}
    if p.peek() != ('op', '{'):
        g['name'] = p.ident()
    p.body(g, g)
    if p.peek()[0] != 'end':
        raise DotError('text after the graph')
    return g


def means(s):
    """The string graphviz should see for str(value) s: line ends become the escapes \\n and \\r."""
    return s.replace('\n', '\\n').replace('\r', '\\r')


def same_text(got, want):
    """Equal up to runs of backslashes (the writer may double a backslash before a quote or at the end)."""
    return re.sub(r'\\+', r'\\', got) == re.sub(r'\\+', r'\\', means(want))
