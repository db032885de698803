"""C11: results of geometric and finite-element kernels carry the unit of what they mean"""
import grades


def run(ctx):
    grades.run(ctx, ["unit"], "out_unit",
               "units of measure inferred over the optimised compiler IR of every kernel of spec/kernels.py, calls inlined, loops of constant length unrolled: every addition, comparison, minimum/maximum, merge of two paths and every result",
               "both operands of +, -, comparison, min/max and of a control-flow merge have the same unit; arguments of transcendental functions are pure numbers; each result has its declared unit")
