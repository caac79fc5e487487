"""Speed helper: the built-in math files are parsed by ruamel once per process (results are deep-copied)."""
import copy

import ruamel.yaml

_orig = ruamel.yaml.YAML.load
_cache: dict = {}


def _load(self, src):
    if isinstance(src, str) and len(src) > 1500 and self.typ == ["safe"]:
        if src not in _cache:
            _cache[src] = _orig(self, src)
        return copy.deepcopy(_cache[src])
    return _orig(self, src)


ruamel.yaml.YAML.load = _load


def _memo_parse(grammar):
    """Parse each string once per grammar; every caller gets its own (deep) copy of the pristine result."""
    orig = grammar.parse_string
    results = {}

    def parse_string(instring, parse_all=False, **kw):
        key = (instring, parse_all, repr(kw))
        if key not in results:
            results[key] = orig(instring, parse_all=parse_all, **kw)  # errors are not kept
        return copy.deepcopy(results[key])

    grammar.parse_string = parse_string
    return grammar


def memo_grammars():
    """Build each pyparsing grammar once per process and set of names, not once per parsed string."""
    import functools

    from calliope.backend import expression_parser, where_parser

    def wrap(mod, name):
        orig = getattr(mod, name, None)
        if orig is None or hasattr(orig, "_memo"):
            return
        memo = {}

        @functools.wraps(orig)
        def wrapper(*args, **kwargs):
            try:
                key = repr([sorted(a) for a in args]) + repr({k: sorted(v) for k, v in sorted(kwargs.items())})
            except TypeError:
                return orig(*args, **kwargs)
            if key not in memo:
                memo[key] = _memo_parse(orig(*args, **kwargs))
            return memo[key]

        wrapper._memo = memo
        setattr(mod, name, wrapper)

    wrap(where_parser, "generate_where_string_parser")
    for n in ("generate_arithmetic_parser", "generate_equation_parser", "generate_sub_expression_parser", "generate_slice_parser"):
        wrap(expression_parser, n)

    # the table of parsers holds references to the original functions
    from calliope.backend import parsing

    table = getattr(getattr(parsing, "ParsedBackendComponent", None), "PARSERS", None)
    if isinstance(table, dict):
        for group, func in list(table.items()):
            new = getattr(expression_parser, getattr(func, "__name__", ""), None)
            if hasattr(new, "_memo"):
                table[group] = new
