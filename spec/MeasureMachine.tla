------------------------------ MODULE MeasureMachine ----------------------------
(* Measures of closed meshes and of facets, and extrusions.  Points are
   <<x, y, z, w>> with w > 0; m holds L / w for every point of the table.        *)
EXTENDS Geom, Conformance

VARIABLE done
vars == <<c, l, done>>
Init == TraceStart /\ done = 0

Add3(a, b) == << a[1] ++ b[1], a[2] ++ b[2], a[3] ++ b[3] >>
Mul3(k, a) == << k ** a[1], k ** a[2], k ** a[3] >>
Minus3(a, b) == << a[1] -- b[1], a[2] -- b[2], a[3] -- b[3] >>
Zero3 == <<0, 0, 0>>
SumSeq3(s) == << ZSumSeq([i \in 1..Len(s) |-> s[i][1]]), ZSumSeq([i \in 1..Len(s) |-> s[i][2]]), ZSumSeq([i \in 1..Len(s) |-> s[i][3]]) >>

\* p = v / k, for a point with any denominator but 0
IsPoint(p, v, k) == /\ ZSgn(p[4]) # 0
                    /\ \A i \in 1..3 : ZEq(p[i] ** k, v[i] ** p[4])

\* <<volume, centroid times volume>> of all the tetrahedra between the origin and
\* the triangles of facet v, times 6 and 24
Fan(S, v, T(_, _, _)) == TLCEval([i \in 1..(Len(v) - 2) |-> T(S[v[1]], S[v[i + 1]], S[v[i + 2]])])
Tet(a, b, d) == CHOOSE r \in { << k, Mul3(k, Add3(a, Add3(b, d))) >> : k \in { Dot3(a, Cross3(b, d)) } } : TRUE
MomentOf(S, fs) ==
  CHOOSE r \in { << ZSumSeq([i \in 1..Len(t) |-> ZSumSeq([j \in 1..Len(t[i]) |-> t[i][j][1]])]),
                    SumSeq3([i \in 1..Len(t) |-> SumSeq3([j \in 1..Len(t[i]) |-> t[i][j][2]])]) >> :
                 t \in { TLCEval([i \in 1..Len(fs) |-> Fan(S, fs[i].v, Tet)]) } } : TRUE

\* a strict order: higher, or as high and further along y, then x
Less(a, b, i) == ZSgn((b[i] ** a[4]) -- (a[i] ** b[4]))
Above(a, b) == LET z == Less(a, b, 3) y == Less(a, b, 2) x == Less(a, b, 1)
               IN z > 0 \/ (z = 0 /\ (y > 0 \/ (y = 0 /\ x > 0)))     \* b above a
Used(fs) == UNION { {fs[i].v[j] : j \in 1..Len(fs[i].v)} : i \in 1..Len(fs) }

Measure ==
  /\ IsEvent("measure") /\ UNCHANGED done
  /\ Require(Ev.given = 0 \/ ValidMesh([pts |-> Ev.pts, f |-> Ev.f]))
  /\ Require(Ev.given = 0 \/ ClosedMesh([pts |-> Ev.pts, f |-> Ev.f]))
  /\ \E S \in { Scaled([pts |-> Ev.pts, f |-> Ev.f], Ev.m) } : \E t \in { MomentOf(S, Ev.f) } : \E u \in { TLCEval(Used(Ev.f)) } :
       /\ Require(ZSgn(t[1]) = 0 \/ \A k \in 1..Len(Ev.centroid) : IsPoint(Ev.centroid[k], t[2], (4 ** t[1]) ** Ev.L))
       /\ Require(/\ \E i \in u : \A k \in 1..Len(Ev.top) : IsPoint(Ev.top[k], <<Ev.pts[i][1], Ev.pts[i][2], Ev.pts[i][3]>>, Ev.pts[i][4])
                  /\ \A i \in u : ~Above([Ev.top[1] EXCEPT ![4] = ZAbs(@), ![1] = ZSgn(Ev.top[1][4]) ** @, ![2] = ZSgn(Ev.top[1][4]) ** @, ![3] = ZSgn(Ev.top[1][4]) ** @], Ev.pts[i]))
       /\ Require(\A k \in 1..Len(Ev.far) :
            \E i \in u :
              /\ IsPoint(Ev.far[k].p, <<Ev.pts[i][1], Ev.pts[i][2], Ev.pts[i][3]>>, Ev.pts[i][4])
              /\ \E h \in { Dot3(Ev.far[k].d, S[i]) } : \A j \in u : ZLe(Dot3(Ev.far[k].d, S[j]), h))

\* ---- one facet: area and centroid
Tri(a, b, d) == CHOOSE r \in { << k, Add3(a, Add3(b, d)) >> : k \in { Cross3(Minus3(b, a), Minus3(d, a)) } } : TRUE
Polygon ==
  /\ IsEvent("polygon") /\ UNCHANGED done
  /\ \E S \in { Scaled([pts |-> Ev.pts, f |-> << >>], Ev.m) } : \E t \in { Fan(S, Ev.v, Tri) } :
     \E n \in { SumSeq3([j \in 1..Len(t) |-> t[j][1]]) } :
       \A k \in 1..3 :
         \* twice the area, with the sign seen from where the axis points to
         /\ Require(/\ ZSgn(Ev.area[k][2]) # 0
                    /\ ZEq((2 ** Ev.area[k][1]) ** (Ev.L ** Ev.L), n[k] ** Ev.area[k][2]))
         /\ Require(ZSgn(n[k]) = 0 \/
              \E s \in { SumSeq3([j \in 1..Len(t) |-> Mul3(t[j][1][k], t[j][2])]) } :
                /\ IsPoint(Ev.centroid, s, (3 ** n[k]) ** Ev.L)
                /\ ZSgn(Ev.flat[k][3]) # 0
                /\ \A j \in 1..2 : ZEq(Ev.flat[k][j] ** ((3 ** n[k]) ** Ev.L), s[((k + j - 1) % 3) + 1] ** Ev.flat[k][3]))

\* ---- extrusion: cap holds the places of the outline in the table, moved those of
\* the outline moved by dir
PlaneOf(a, b, d) == CHOOSE r \in { << n[1] ** a[4], n[2] ** a[4], n[3] ** a[4], Dot3(n, a) >> : n \in { Cross3(Sub3(a, b), Sub3(a, d)) } } : TRUE
Expected(pts) ==
  LET k == Len(Ev.cap)
      Quad(i) == << Ev.cap[Nx(i, k)], Ev.cap[i], Ev.moved[i], Ev.moved[Nx(i, k)] >>
      Sides == TLCEval([i \in 1..k |-> [v |-> Quad(i), n |-> PlaneOf(pts[Quad(i)[1]], pts[Quad(i)[2]], pts[Quad(i)[3]])]])
      T == pts[Ev.moved[1]]
      n == Ev.n
      Top == [v |-> [i \in 1..k |-> Ev.moved[k + 1 - i]],
              n |-> << ZNeg(n[1]) ** T[4], ZNeg(n[2]) ** T[4], ZNeg(n[3]) ** T[4], ZNeg(Dot3(n, T)) >>]
  IN TLCEval([pts |-> pts, f |-> << [v |-> Ev.cap, n |-> n], Top >> \o SelectSeq(Sides, LAMBDA s : ~IsZero3(s.n))])
Extrusion ==
  /\ IsEvent("extrude") /\ UNCHANGED done
  /\ LET pts == Ev.pts
         k == Len(Ev.cap)
         out == [pts |-> pts, f |-> Ev.f]
     IN
     \E S \in { Scaled(out, Ev.m) } :
     \E A2 \in { SumSeq3(Fan(S, Ev.cap, LAMBDA a, b, d : Cross3(Minus3(b, a), Minus3(d, a)))) } :
       /\ Require(\A i \in 1..k : IsPoint(pts[Ev.moved[i]],
                     <<(pts[Ev.cap[i]][1] ** Ev.dd) ++ (Ev.dir[1] ** pts[Ev.cap[i]][4]),
                       (pts[Ev.cap[i]][2] ** Ev.dd) ++ (Ev.dir[2] ** pts[Ev.cap[i]][4]),
                       (pts[Ev.cap[i]][3] ** Ev.dd) ++ (Ev.dir[3] ** pts[Ev.cap[i]][4])>>, Ev.dd ** pts[Ev.cap[i]][4]))
       /\ Require(ValidMesh(out))
       /\ Require(ClosedMesh(out))
       /\ Require(Used(Ev.f) \subseteq {Ev.cap[i] : i \in 1..k} \cup {Ev.moved[i] : i \in 1..k})
       /\ Require(ZEq(Volume6(out, Ev.m) ** Ev.dd, ZNeg((3 ** Ev.L) ** Dot3(A2, Ev.dir))))
       /\ Require(ZSgn(Dot3(A2, Ev.dir)) = 0 \/
            \E e \in { Expected(pts) } : \A i \in 1..Len(Ev.qs) : Winding(out, Ev.qs[i]) = Winding(e, Ev.qs[i]))

Next == Measure \/ Polygon \/ Extrusion \/ (AtEnd /\ UNCHANGED done)
Spec == Init /\ [][Next]_vars
=================================================================================
