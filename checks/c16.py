"""C16: gradients and Hessians of elements and constraints are the derivatives of their energy"""
import lawcheck


def run(ctx):
    lawcheck.run(ctx, "D", "d",
                 "algebraic value numbering with derivatives along a symbolic variation of the inputs, over the optimised compiler IR of every kernel of spec/laws.py (list D): the numbered derivative of each energy, constraint or gradient is compared with the returned gradient, Jacobian or Hessian contracted with the same variation",
                 "the derivative of the returned value along every variation of its variables is the returned gradient, and of the gradient the returned Hessian; stiffness matrices are symmetric where they derive from an energy",
                 "derivative", budget=25.0)
