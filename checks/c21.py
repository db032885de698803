"""C21: assembly over a mesh equals the sum of its element contributions"""
import lawcheck


def run(ctx):
    lawcheck.run(ctx, "A", "zero",
                 "algebraic value numbering over the optimised compiler IR of every kernel of spec/laws.py (list A): the assembling function is applied to a small mesh of fixed connectivity with symbolic coordinates, values and parameters, and the matrix and right-hand side it leaves are compared entry by entry with the sum of the element contributions",
                 "after assembly every entry of matrix and right-hand side is its previous value plus the contributions of the elements that touch it, each taken once, with the nodes, parameters and values of that element",
                 "assembly", budget=25.0)
