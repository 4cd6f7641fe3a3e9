------------------------------- MODULE Interp -------------------------------
(* Interpolation on rectangular grids in two and three dimensions: in every cell the tensor product of cubic     *)
(* Hermite interpolants whose node derivatives are those of Akima splines along the grid lines; the mixed        *)
(* derivatives are splines of the derivative tables (z first, then y, then x).  Tables are indexed [y][x] and    *)
(* [z][y][x].                                                                                                    *)
EXTENDS Akima
\* derivative tables of a table of rows
DX2(xs, f) == TLCEval([j \in 1..Len(f) |-> Derivs(xs, f[j])])
DY2(ys, f) == LET col == TLCEval([i \in 1..Len(f[1]) |-> Derivs(ys, [j \in 1..Len(f) |-> f[j][i]])])
              IN TLCEval([j \in 1..Len(f) |-> [i \in 1..Len(f[1]) |-> col[i][j]]])
DX3(xs, f) == TLCEval([k \in 1..Len(f) |-> DX2(xs, f[k])])
DY3(ys, f) == TLCEval([k \in 1..Len(f) |-> DY2(ys, f[k])])
DZ3(zs, f) == LET c == TLCEval([j \in 1..Len(f[1]) |-> [i \in 1..Len(f[1][1]) |-> Derivs(zs, [k \in 1..Len(f) |-> f[k][j][i]])]])
              IN TLCEval([k \in 1..Len(f) |-> [j \in 1..Len(f[1]) |-> [i \in 1..Len(f[1][1]) |-> c[j][i][k]]]])
Bi(f, xs, ys) == LET fy == DY2(ys, f) IN
   [x |-> xs, y |-> ys, f |-> f, fx |-> DX2(xs, f), fy |-> fy, fxy |-> DX2(xs, fy)]
Tri(f, xs, ys, zs) == LET fy == DY3(ys, f) fz == DZ3(zs, f) fyz == DY3(ys, fz) IN
   [x |-> xs, y |-> ys, z |-> zs, f |-> f, fx |-> DX3(xs, f), fy |-> fy, fz |-> fz, fxy |-> DX3(xs, fy), fxz |-> DX3(xs, fz),
    fyz |-> fyz, fxyz |-> DX3(xs, fyz)]
\* one-dimensional Hermite interpolation on a cell, and the size of the terms that  enter the cell's polynomial (v: a value and its size)
V(a) == <<a, NAbs(a)>>
Herm(v0, v1, d0, d1, t, h) ==
   LET w == TLCEval(<<H(0, t), H(1, t), G(0, t), G(1, t)>>) IN
   TLCEval(<<NDot(w, <<v0[1], v1[1], NMul(h, d0[1]), NMul(h, d1[1])>>), NDot([i \in 1..4 |-> NMax("0.5", NAbs(w[i]))], <<v0[2], v1[2], NMul(h, d0[2]), NMul(h, d1[2])>>)>>)
Loc(xs, x, i) == NDiv(NSub(x, xs[i]), NSub(xs[i + 1], xs[i]))
Wid(xs, i) == NSub(xs[i + 1], xs[i])
RowVal(f, fx, j, i, t, h) == Herm(V(f[j][i]), V(f[j][i + 1]), V(fx[j][i]), V(fx[j][i + 1]), t, h)
BiVal(b, x, y) == LET i == Seg(b.x, x) j == Seg(b.y, y) t == Loc(b.x, x, i) u == Loc(b.y, y, j) h == Wid(b.x, i) IN
   Herm(RowVal(b.f, b.fx, j, i, t, h), RowVal(b.f, b.fx, j + 1, i, t, h), RowVal(b.fy, b.fxy, j, i, t, h),
        RowVal(b.fy, b.fxy, j + 1, i, t, h), u, Wid(b.y, j))
PlaneVal(f, fx, fy, fxy, i, j, t, u, h, g) ==
   Herm(RowVal(f, fx, j, i, t, h), RowVal(f, fx, j + 1, i, t, h), RowVal(fy, fxy, j, i, t, h), RowVal(fy, fxy, j + 1, i, t, h), u, g)
TriVal(b, x, y, z) ==
   LET i == Seg(b.x, x) j == Seg(b.y, y) k == Seg(b.z, z) t == Loc(b.x, x, i) u == Loc(b.y, y, j) h == Wid(b.x, i) g == Wid(b.y, j) IN
   Herm(PlaneVal(b.f[k], b.fx[k], b.fy[k], b.fxy[k], i, j, t, u, h, g), PlaneVal(b.f[k + 1], b.fx[k + 1], b.fy[k + 1], b.fxy[k + 1], i, j, t, u, h, g),
        PlaneVal(b.fz[k], b.fxz[k], b.fyz[k], b.fxyz[k], i, j, t, u, h, g),
        PlaneVal(b.fz[k + 1], b.fxz[k + 1], b.fyz[k + 1], b.fxyz[k + 1], i, j, t, u, h, g), Loc(b.z, z, k), Wid(b.z, k))
IsNode(xs, x) == \E i \in 1..Len(xs) : NEq(xs[i], x)
=============================================================================
