NA = {
'P60':'The covered region of the result is a value over unbounded runtime geometry (rounded intersection points); no static argument in reach bounds it. The decisions it is made of are claimed separately (P01-P06, P43-P46).',
'P61':'That output edges never cross depends on rounding and on the splitting loop reaching a fixed point for arbitrary coordinates; a runtime quantity.',
'P62':'Termination needs a ranking argument over splits of rounded intersections, which depends on runtime coordinates.',
'P63':'The distance of offset outlines is floating point arithmetic on runtime values composed with a union of arbitrary self-intersecting loops.',
'P64':'Signs, rounding and division by one word are claimed separately (P69). Long division runs loops whose length depends on the operands (or inline assembly); that they compute the quotient is a numeric theorem that needs a prover or solver, not static analysis.',
'P66':'How well pixels approximate the polygon is a quantitative statement about runtime values.',
'P67':'Rounding of intersection points is floating point arithmetic over runtime coordinates; only endpoint cases are decided (P06).',
}
