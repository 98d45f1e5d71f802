"""Axioms of assumed pure functions, added only when their symbols occur."""
import z3
_ax = []


def register(names, ax):
    """names: symbols that must all occur; ax: z3 formula"""
    _ax.append((set(names), ax))


def axioms(names):
    return [a for n, a in _ax if n <= names]
