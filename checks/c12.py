"""C12: kernels commute with mirroring the coordinates"""
import algs, grades


def run(ctx):
    decided = algs.run(ctx, "mirror",
                       "algebraic value numbering of every kernel of spec/kernels.py over its optimised compiler IR, for the inputs as they are and mirrored in x, y and z; parity inference where value numbering does not decide, and for roots",
                       "the results of mirrored inputs are the mirrored results; roots are taken of quantities that do not change sign",
                       ("is not mirrored with the coordinates in", ""), budget=12.0)
    cov = dict(ctx.coverage)
    grades.run(ctx, ["parity", "root"], "out_parity", "", "", drop=lambda k, c: c == "parity" and k.name in decided)
    cov["inference_results"] = ctx.coverage["results"]
    cov["inference_results_decided"] = ctx.coverage["results_decided"]
    ctx.coverage.clear()
    ctx.cover(**cov)
