"""Basic Hypothesis strategies: texts, identifiers, numbers."""
from hypothesis import strategies as st

# text that is legal in XML 1.0
_XML = st.characters(blacklist_categories=("Cs", "Cc"), blacklist_characters="\ufffe\uffff")
XML_TEXT = st.text(alphabet=st.one_of(_XML, st.sampled_from("\t\n<>&\"' ]")), max_size=10)
PLAIN_TEXT = st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=8)

NASTY = ["", "a", "b", "Task 1", "Task 10", "A & B", "<b>", "x > y", "'q'", "\"dq\"", "]]>", "a\"b'c&amp;d", "&lt;", "%s %d",
         "żółć", "日本語", "emoji \U0001f600", "  leading", "trailing  ", " ", "two  spaces", "tab\there", "line\nbreak",
         "true", "false", "None", "null", "0", "1.0", "-5", "NA", "nan", "yes", "no", "else", "a:b", "a,b", "a;b", "a.b",
         "{}", "{0}", "$x", "\\n", "C:\\path", "#", "--", "<!-- c -->", "goto 1", "task", "id", "\u00a0nbsp", "é", "é",
         "x" * 300, "ok?", "*", "[a-z]+", "name", "\u2028", "İ", "ß",
         "then goto 1", "message m", "timer t", "Yes", "ELSE", "1a1", "0_split", "2_join", "process_1", "startEvent",
         "a__b", "&#10;", "a\\", "'", "\"", "=1+1", "1e3", "inf", "-", "ID", "Task", "a\u0301", "%20", "a/b", "../x", "|",
         "Check whether the order is complete", "Check whether the order is paid", "Send Invoice to the Customer (again)",
         " a", "b ", " Task 1 ", "name ", "amount > 1000 && customer.type == 'Gold'", "a rather long text\nwith a second line", "${x}", "#{order.total} > 5", "${a} && ${b}", "a\n", "\nb", "\ta",
         "one\r\ntwo", "a\rb", "\r", "Ã©", "20 Â°C", "Ã¼Ã¶"]
# texts without line breaks and tabs at the ends, for places that are documented to be plain words
NAME = st.one_of(st.sampled_from(NASTY), st.sampled_from(NASTY), XML_TEXT)

_ID_BASES = ["a", "A", "Task_", "task", "id", "sid-", "_", "x.y", "n1", "n", "Z-9_", "ż", "process", "node", "f", "flow_",
             "gui", "Flow", "sid-52EB1772-F36E-433E-8F5B-D5DFD26E6F", "Gateway_is-the.order_complete_", "id4a2f9c50d8b7e3", "k?_gui", "k?-di", "f?__1", "a__", "similar", "similar"]
_SIMILAR = ["_%s", "%s_", "%s0", "%s.0", "%s-", "x%s", "%s__1", "%s_1"]
_BASE = st.sampled_from(_ID_BASES)


class Ids(object):
    """Unique identifiers; many are prefixes of each other or differ in case only."""

    def __init__(self, draw, simple=False):
        self.draw = draw
        self.count = {}
        self.simple = simple
        self.used = set()
        self.order = []

    def new(self, prefix=None):
        base = prefix if prefix is not None else ("n" if self.simple else self.draw(_BASE))
        if base == "similar" and self.order:  # to an id that is in use
            other = self.draw(st.sampled_from(self.order))
            for value in (v % other for v in self.draw(st.permutations(_SIMILAR))):
                if value not in self.used:
                    self.used.add(value)
                    self.order.append(value)
                    return value
        while True:
            n = self.count.get(base, 0) + 1
            self.count[base] = n
            value = base.replace("?", str(n)) if "?" in base else base + str(n)
            if value not in self.used:
                self.used.add(value)
                self.order.append(value)
                return value


BOOL_TEXT = st.sampled_from(["true", "false"])
COORD = st.one_of(st.integers(-2000, 4000).map(str),
                  st.sampled_from(["0", "100", "100.0", "-12.5", "349.99999", "1e2", "0.1", "12.250", "-0", "1000000"]))
SIZE = st.one_of(st.integers(1, 900).map(str), st.sampled_from(["100", "80.0", "36.5", "0.5", "0", "0.0"]))


def maybe(strategy, p=3):
    """A value in p of 4 cases, None otherwise."""
    return st.integers(0, 3).flatmap(lambda k: strategy if k < p else st.none())


def fraction(draw, num, den):
    return draw(st.integers(0, den - 1)) < num
