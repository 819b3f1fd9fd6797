"""Helpers of tools/mutants/*.py: replace a whole function of the tree by another text."""
import ast
import pathlib
import textwrap

SRC = pathlib.Path("/repo/src/flowMC")


def fn(file, qual, new):
    """(file, old text of the function `qual` = Class.method or name, new text), new is dedented and re-indented."""
    text = (SRC / file).read_text()
    body = ast.parse(text).body
    for part in qual.split("."):
        node = next(n for n in body if getattr(n, "name", None) == part)
        body = node.body
    start = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    old = "".join(text.splitlines(True)[start:node.end_lineno])
    return file, old, textwrap.indent(textwrap.dedent(new).strip("\n") + "\n", " " * node.col_offset)


def body(file, qual, new, keep_doc=True):
    """As fn, but keeps the signature."""
    text = (SRC / file).read_text()
    nodes = ast.parse(text).body
    for part in qual.split("."):
        node = next(n for n in nodes if getattr(n, "name", None) == part)
        nodes = node.body
    lines = text.splitlines(True)
    first = node.body[0]
    old = "".join(lines[first.lineno - 1:node.end_lineno])
    return file, old, textwrap.indent(textwrap.dedent(new).strip("\n") + "\n", " " * (node.col_offset + (0 if textwrap.dedent(new).strip("\n").startswith("    ") else 4)))
