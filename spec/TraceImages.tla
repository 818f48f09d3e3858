----------------------------- MODULE TraceImages -----------------------------
(* Decides recorded preparations of images.                                      *)
(*  all: op, img (rows of grey values), err ("" or what was raised), out, same   *)
(*  (the given arrays hold what they held), kind (type of the values returned)   *)
(*   prepare: n (half window), hp, base: what the call with hp = 0 gives,        *)
(*            k: the filter of the file in thousandths (hp = 2)                  *)
(*   refused: a call that has to be refused                                      *)
(*   mean n | nine (outside black) | filter k | ninemirrored | difference other  *)
(*   mask other | copy                                                          *)
EXTENDS Images, Records
Ok(r) == r.err = ""
Prepared(r) == Each(r.img, r.base, LAMBDA i, j : IsPrepared(r.base[i][j], r.img, i, j, r.n))
Failures(r) ==
    IF r.op = "refused" THEN IF r.err # "" THEN {} ELSE {"wrong-argument-accepted"}
    ELSE IF ~Ok(r) THEN {r.op \o "-fails"}
    ELSE (IF r.same THEN {} ELSE {"given-image-changed"})
         \cup (IF r.op = "mask" \/ r.kind = "uint8" THEN {} ELSE {"not-grey-values"})
         \cup (CASE r.op = "prepare" ->
                    (IF Prepared(r) THEN {} ELSE {"prepared-image-wrong"})
                    \cup (IF CASE r.hp = 0 -> r.out = r.base
                               [] r.hp = 1 -> Each(r.base, r.out, LAMBDA i, j : IsMean(r.out[i][j], r.base, i, j, 1))
                               [] r.hp = 2 -> Each(r.base, r.out, LAMBDA i, j : IsFiltered(r.out[i][j], r.base, i, j, r.k, FALSE))
                          THEN {} ELSE {"second-filter-wrong"})
                 [] r.op = "mean" -> IF Each(r.img, r.out, LAMBDA i, j : IsMean(r.out[i][j], r.img, i, j, r.n)) THEN {} ELSE {"local-mean-wrong"}
                 [] r.op = "nine" -> IF Each(r.img, r.out, LAMBDA i, j : IsNine(r.out[i][j], r.img, i, j, FALSE)) THEN {} ELSE {"local-mean-wrong"}
                 [] r.op = "ninemirrored" -> IF Each(r.img, r.out, LAMBDA i, j : IsNine(r.out[i][j], r.img, i, j, TRUE)) THEN {} ELSE {"local-mean-wrong"}
                 [] r.op = "filter" -> IF Each(r.img, r.out, LAMBDA i, j : IsFiltered(r.out[i][j], r.img, i, j, r.k, TRUE)) THEN {} ELSE {"filter-wrong"}
                 [] r.op = "difference" -> IF Each(r.img, r.out, LAMBDA i, j : r.out[i][j] = Difference(r.img[i][j], r.other[i][j])) THEN {} ELSE {"difference-wrong"}
                 [] r.op = "mask" -> IF Each(r.img, r.out, LAMBDA i, j : r.out[i][j] = Masked(r.img[i][j], r.other[i][j])) THEN {} ELSE {"mask-wrong"}
                 [] r.op = "copy" -> IF r.out = r.img THEN {} ELSE {"copy-differs"})
Inv == Report(Failures(Recs[pos]))
=============================================================================
