------------------------------ MODULE ImageTrace ------------------------------
(* Recorded histories of images.                                              *)
EXTENDS Image, TraceBase
VARIABLE im     \* every image by name
ImageVars == <<im>>
ImageReset == im' = [x \in {} |-> 0]
IGet(n) == IF n \in DOMAIN im THEN im[n] ELSE NoImage
\* only the named images may have changed
ITable(names) ==
  /\ Chk("images", DOMAIN im \cup names \subseteq DOMAIN Ev.im)
  /\ Chk("well formed images", \A n \in DOMAIN Ev.im : IWellFormed(Ev.im[n]))
  /\ Chk("untouched images", \A n \in DOMAIN Ev.im \ names : Ev.im[n] = IGet(n))
  /\ im' = Ev.im
IOnly == ITable({Ev.m})
I0 == IGet(Ev.m)
I1 == Ev.im[Ev.m]
ImageStep ==
  \/ Is("i_new") /\ IOnly /\ Chk("shape", IShape(I1, Ev.w, Ev.h, Ev.p))
  \/ Is("i_default") /\ IOnly /\ Chk("shape", IShape(I1, 0, 0, 1))
  \/ Is("i_load") /\ IOnly
  \/ Is("i_resize") /\ IOnly /\ Chk("shape", IShape(I1, Ev.w, Ev.h, Ev.p))
                    /\ Chk("same shape keeps the content", IShape(I0, Ev.w, Ev.h, Ev.p) => I1 = I0)
  \/ (Is("i_set") \/ Is("i_set_p")) /\ IOnly /\ Chk("outcome", I1 = ISet(I0, Ev.x, Ev.y, Ev.k, Ev.v))
  \/ Is("i_get") /\ ITable({})
                 /\ Chk("value", LET v == I0.d[IAt(I0, Ev.x, Ev.y, Ev.k)] IN Ev.ret = v /\ Ev.ptr = v /\ Ev.cptr = v /\ Ev.cret = v)
                 /\ Chk("layout", Ev.at = IAt(I0, Ev.x, Ev.y, Ev.k) - 1)
                 /\ Chk("shape", Ev.w = I0.w /\ Ev.h = I0.h /\ Ev.p = I0.p /\ Ev.size = Len(I0.d))
  \/ (Is("i_copy") \/ Is("i_assign")) /\ IOnly /\ Chk("outcome", I1 = IGet(Ev.f))
  \/ Is("i_bw") /\ IOnly /\ Ev.m # Ev.f /\ Chk("mean", BWPost(IGet(Ev.f), I1))
  \/ Is("i_scale") /\ IOnly /\ Chk("scaled", ScalePost(I0, Ev.s, I1))
  \/ Is("i_to_double") /\ ITable({}) /\ Chk("numbers", ToDoublePost(I0, Ev.r))
  \/ Is("i_twin") /\ ITable({}) /\ Chk("same image", IGet(Ev.m) = IGet(Ev.f))
  \/ Is("i_sierpinski") /\ IOnly /\ Chk("fractal", SierpinskiPost(Ev.w, Ev.h, I1))
  \/ Is("i_mandelbrot") /\ IOnly /\ Chk("fractal", MandelbrotPost(Ev.w, Ev.h, Ev.n, I1))
=============================================================================
