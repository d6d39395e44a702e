"""An independent recogniser for the TPTP text that the prover accepts (FOF and monomorphic/polymorphic TFF, include, annotations).

It follows the TPTP BNF (lexical rules included) and answers whether a text is syntactically well-formed; it is lenient on nothing but
the contents of annotations."""
import re

TOK = re.compile(r"""
 (?P<ws>[ \t\r\n]+ | %[^\n]*(?:\n|\Z) | /\*(?:[^*]|\*(?!/))*\*/ )
|(?P<sq>'(?:[ -&(-\[\]-~]|\\['\\])*')
|(?P<do>"(?:[ !#-\[\]-~]|\\["\\])*")
|(?P<real>[+-]?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?[Ee][+-]?[0-9]+ | [+-]?(?:0|[1-9][0-9]*)\.[0-9]+)
|(?P<rat>[+-]?(?:0|[1-9][0-9]*)/[1-9][0-9]*)
|(?P<int>[+-]?(?:0|[1-9][0-9]*))
|(?P<uw>[A-Z][A-Za-z0-9_]*)
|(?P<lw>[a-z][A-Za-z0-9_]*)
|(?P<dw>\$[A-Za-z0-9_]*)
|(?P<op><=>|<~>|=>|<=|~\||~&|!>|!=|<<|[!?~|&*+=<>,.:()\[\]-])
""", re.X)


class Bad(Exception):
    pass


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m or m.end() == i:
            raise Bad('character %d' % i)
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


def ends_open(text):
    """A comment or a quote that is never closed is caught by tokens(); nothing else needs care."""
    return False


class Rec:
    def __init__(self, text):
        self.t = tokens(text) + [('end', '')]
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def at(self, s):
        k, v = self.peek()
        return k == 'op' and v == s

    def eat(self, s):
        if not self.at(s):
            raise Bad('expected %s at %r' % (s, self.peek()))
        self.i += 1

    def kind(self, *ks):
        k, v = self.peek()
        if k not in ks:
            raise Bad('expected %s at %r' % (ks, self.peek()))
        self.i += 1
        return v

    def file(self):
        while self.peek()[0] != 'end':
            k, v = self.peek()
            if (k, v) == ('lw', 'include'):
                self.i += 1
                self.eat('(')
                self.kind('sq')
                if self.at(','):
                    self.i += 1
                    self.eat('[')
                    self.name()
                    while self.at(','):
                        self.i += 1
                        self.name()
                    self.eat(']')
            elif k == 'lw' and v in ('fof', 'tff', 'tpi'):
                self.i += 1
                self.eat('(')
                self.name()
                self.eat(',')
                self.kind('lw')
                if self.at('-'):
                    self.i += 1
                    self.general()
                self.eat(',')
                if v == 'tff':
                    self.tff_top()
                else:
                    self.formula(False)
                if self.at(','):
                    self.i += 1
                    self.general()
                    if self.at(','):
                        self.i += 1
                        self.general_list()
            else:
                raise Bad('statement starts with %r' % (v,))
            self.eat(')')
            self.eat('.')

    def name(self):
        self.kind('lw', 'sq', 'int')

    # formulas
    def formula(self, tff):
        self.unit(tff)
        k, v = self.peek()
        if k == 'op' and v in ('<=>', '=>', '<=', '<~>', '~|', '~&'):
            self.i += 1
            self.unit(tff)
        elif k == 'op' and v in ('&', '|'):
            while self.at(v):
                self.i += 1
                self.unit(tff)

    def unit(self, tff, infix=True):
        if self.at('~'):
            self.i += 1
            # the TFF grammar has no infix formula directly under a negation
            self.unit(tff, infix=not tff)
        elif self.at('!') or self.at('?'):
            self.i += 1
            self.eat('[')
            self.var(tff)
            while self.at(','):
                self.i += 1
                self.var(tff)
            self.eat(']')
            self.eat(':')
            self.unit(tff)
        elif self.at('('):
            self.i += 1
            self.formula(tff)
            self.eat(')')
        else:
            self.atom(infix)

    def var(self, tff):
        self.kind('uw')
        if tff and self.at(':'):
            self.i += 1
            self.atomic_type()

    def atom(self, infix):
        k, v = self.peek()
        if k == 'dw' and v in ('$true', '$false'):
            self.i += 1
            if self.at('=') or self.at('!=') or self.at('('):
                raise Bad('truth value used as a term')
            return
        self.term()
        if self.at('=') or self.at('!='):
            if not infix:
                raise Bad('infix formula under a negation')
            self.i += 1
            self.term()
        elif k not in ('lw', 'sq', 'dw'):
            raise Bad('not an atom: %r' % (v,))

    def term(self):
        k = self.peek()[0]
        v = self.kind('lw', 'sq', 'dw', 'uw', 'int', 'rat', 'real', 'do')
        if k == 'dw' and v in ('$true', '$false', '$fof', '$fot', '$tff'):
            raise Bad('%s as a term' % v)
        if k in ('lw', 'sq', 'dw') and self.at('('):
            self.i += 1
            self.term()
            while self.at(','):
                self.i += 1
                self.term()
            self.eat(')')

    # types
    def tff_top(self):
        i = self.i
        try:
            self.typing()
            return
        except Bad:
            self.i = i
        self.formula(True)

    def typing(self):
        if self.at('('):
            self.i += 1
            self.typing()
            self.eat(')')
            return
        self.kind('lw', 'sq')
        self.eat(':')
        self.top_type()
        if not (self.at(')') or self.at(',')):
            raise Bad('typing')

    def top_type(self):
        if self.at('!>'):
            self.i += 1
            self.eat('[')
            self.var(True)
            while self.at(','):
                self.i += 1
                self.var(True)
            self.eat(']')
            self.eat(':')
            self.mono()
            return
        i = self.i
        if self.at('('):    # a bracketed mapping or quantified type, a bracketed atomic type or a product before an arrow
            try:
                self.i += 1
                self.top_type_nonatomic()
                self.eat(')')
                if not (self.at(')') or self.at(',')):
                    raise Bad('type')
                return
            except Bad:
                self.i = i
        self.mapping(False)

    def top_type_nonatomic(self):
        if self.at('!>'):
            self.top_type()
        elif self.at('('):
            i = self.i
            try:
                self.i += 1
                self.top_type_nonatomic()
                self.eat(')')
                if self.at('>') or self.at('*'):
                    raise Bad('type')
            except Bad:
                self.i = i
                self.mapping(True)
        else:
            self.mapping(True)

    def mapping(self, arrow):
        i = self.i
        try:
            self.atomic_type()
            if self.at('*'):
                raise Bad('product without brackets')
        except Bad:
            self.i = i
            self.eat('(')
            self.product()
            self.eat(')')
            if not self.at('>'):
                raise Bad('product without an arrow')
        if self.at('>'):
            self.i += 1
            self.atomic_type()
        elif arrow:
            raise Bad('not a mapping')

    def product(self):
        i = self.i
        n = 0
        if self.at('('):
            try:
                self.i += 1
                self.product()
                self.eat(')')
                n = 1
                if not self.at('*'):
                    raise Bad('product')
            except Bad:
                self.i = i
                self.atomic_type()
        else:
            self.atomic_type()
        n = 0
        while self.at('*'):
            self.i += 1
            self.atomic_type()
            n += 1
        if not n:
            raise Bad('product')

    def mono(self):
        if self.at('!>'):
            self.top_type()
            return
        i = self.i
        if self.at('('):
            try:
                self.i += 1
                self.mapping(True)
                self.eat(')')
                return
            except Bad:
                self.i = i
        self.atomic_type()

    def atomic_type(self):
        if self.at('('):
            self.i += 1
            self.atomic_type()
            self.eat(')')
            return
        k = self.peek()[0]
        v = self.kind('lw', 'sq', 'dw', 'uw')
        if v in ('$true', '$false', '$fof', '$fot', '$tff'):
            raise Bad('type')
        if k in ('lw', 'sq') and self.at('('):
            self.i += 1
            self.atomic_type()
            while self.at(','):
                self.i += 1
                self.atomic_type()
            self.eat(')')

    # annotations
    def general(self):
        if self.at('['):
            self.general_list()
            return
        k, v = self.peek()
        if k == 'dw' and v in ('$fof', '$tff', '$fot'):
            self.i += 1
            self.eat('(')
            if v == '$fot':
                self.term()
            elif v == '$fof':
                self.formula(False)
            else:
                self.tff_top()
            self.eat(')')
        else:
            self.kind('lw', 'sq', 'uw', 'int', 'rat', 'real', 'do')
            if k in ('lw', 'sq') and self.at('('):
                self.i += 1
                self.general()
                while self.at(','):
                    self.i += 1
                    self.general()
                self.eat(')')
        if self.at(':'):
            self.i += 1
            self.general()

    def general_list(self):
        self.eat('[')
        if not self.at(']'):
            self.general()
            while self.at(','):
                self.i += 1
                self.general()
        self.eat(']')


def wellformed(text):
    """(True, None), or (False, why)."""
    try:
        Rec(text).file()
        return True, None
    except Bad as e:
        return False, str(e)
    except RecursionError:
        return True, None
