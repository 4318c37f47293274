------------------------------ MODULE Trig ------------------------------
(* Generated tables (lib/gentrig: rounded sines and cosines, scale TS).       *)
(* Ngon(n).u : unit vertex directions of a regular n-gon, one at angle 0;     *)
(* Ngon(n).n : outward edge normals; .a : apothem; all multiplied by Ngon(n).s *)
EXTENDS Integers, Sequences
Ngon3 == [s |-> 1000, a |-> 500,
     u |-> <<<<1000,0>>,<<-500,866>>,<<-500,-866>>>>,
     n |-> <<<<500,866>>,<<-1000,0>>,<<500,-866>>>>]
Ngon4 == [s |-> 1, a |-> 1,
     u |-> <<<<1,0>>,<<0,1>>,<<-1,0>>,<<0,-1>>>>,
     n |-> <<<<1,1>>,<<-1,1>>,<<-1,-1>>,<<1,-1>>>>]
Ngon5 == [s |-> 1000, a |-> 809,
     u |-> <<<<1000,0>>,<<309,951>>,<<-809,588>>,<<-809,-588>>,<<309,-951>>>>,
     n |-> <<<<809,588>>,<<-309,951>>,<<-1000,0>>,<<-309,-951>>,<<809,-588>>>>]
Ngon6 == [s |-> 1000, a |-> 866,
     u |-> <<<<1000,0>>,<<500,866>>,<<-500,866>>,<<-1000,0>>,<<-500,-866>>,<<500,-866>>>>,
     n |-> <<<<866,500>>,<<0,1000>>,<<-866,500>>,<<-866,-500>>,<<0,-1000>>,<<866,-500>>>>]
Ngon8 == [s |-> 1000, a |-> 924,
     u |-> <<<<1000,0>>,<<707,707>>,<<0,1000>>,<<-707,707>>,<<-1000,0>>,<<-707,-707>>,<<0,-1000>>,<<707,-707>>>>,
     n |-> <<<<924,383>>,<<383,924>>,<<-383,924>>,<<-924,383>>,<<-924,-383>>,<<-383,-924>>,<<383,-924>>,<<924,-383>>>>]
Ngon12 == [s |-> 1000, a |-> 966,
     u |-> <<<<1000,0>>,<<866,500>>,<<500,866>>,<<0,1000>>,<<-500,866>>,<<-866,500>>,<<-1000,0>>,<<-866,-500>>,<<-500,-866>>,<<0,-1000>>,<<500,-866>>,<<866,-500>>>>,
     n |-> <<<<966,259>>,<<707,707>>,<<259,966>>,<<-259,966>>,<<-707,707>>,<<-966,259>>,<<-966,-259>>,<<-707,-707>>,<<-259,-966>>,<<259,-966>>,<<707,-707>>,<<966,-259>>>>]
Ngon7 == [s |-> 1000, a |-> 901,
     u |-> <<<<1000,0>>,<<623,782>>,<<-223,975>>,<<-901,434>>,<<-901,-434>>,<<-223,-975>>,<<623,-782>>>>,
     n |-> <<<<901,434>>,<<223,975>>,<<-623,782>>,<<-1000,0>>,<<-623,-782>>,<<223,-975>>,<<901,-434>>>>]
Ngon9 == [s |-> 1000, a |-> 940,
     u |-> <<<<1000,0>>,<<766,643>>,<<174,985>>,<<-500,866>>,<<-940,342>>,<<-940,-342>>,<<-500,-866>>,<<174,-985>>,<<766,-643>>>>,
     n |-> <<<<940,342>>,<<500,866>>,<<-174,985>>,<<-766,643>>,<<-1000,0>>,<<-766,-643>>,<<-174,-985>>,<<500,-866>>,<<940,-342>>>>]
Ngon10 == [s |-> 1000, a |-> 951,
     u |-> <<<<1000,0>>,<<809,588>>,<<309,951>>,<<-309,951>>,<<-809,588>>,<<-1000,0>>,<<-809,-588>>,<<-309,-951>>,<<309,-951>>,<<809,-588>>>>,
     n |-> <<<<951,309>>,<<588,809>>,<<0,1000>>,<<-588,809>>,<<-951,309>>,<<-951,-309>>,<<-588,-809>>,<<0,-1000>>,<<588,-809>>,<<951,-309>>>>]
Ngon11 == [s |-> 1000, a |-> 959,
     u |-> <<<<1000,0>>,<<841,541>>,<<415,910>>,<<-142,990>>,<<-655,756>>,<<-959,282>>,<<-959,-282>>,<<-655,-756>>,<<-142,-990>>,<<415,-910>>,<<841,-541>>>>,
     n |-> <<<<959,282>>,<<655,756>>,<<142,990>>,<<-415,910>>,<<-841,541>>,<<-1000,0>>,<<-841,-541>>,<<-415,-910>>,<<142,-990>>,<<655,-756>>,<<959,-282>>>>]
Ngon16 == [s |-> 1000, a |-> 981,
     u |-> <<<<1000,0>>,<<924,383>>,<<707,707>>,<<383,924>>,<<0,1000>>,<<-383,924>>,<<-707,707>>,<<-924,383>>,<<-1000,0>>,<<-924,-383>>,<<-707,-707>>,<<-383,-924>>,<<0,-1000>>,<<383,-924>>,<<707,-707>>,<<924,-383>>>>,
     n |-> <<<<981,195>>,<<831,556>>,<<556,831>>,<<195,981>>,<<-195,981>>,<<-556,831>>,<<-831,556>>,<<-981,195>>,<<-981,-195>>,<<-831,-556>>,<<-556,-831>>,<<-195,-981>>,<<195,-981>>,<<556,-831>>,<<831,-556>>,<<981,-195>>>>]
Ngon(n) == CASE n = 3 -> Ngon3 [] n = 4 -> Ngon4 [] n = 5 -> Ngon5 [] n = 6 -> Ngon6 [] n = 8 -> Ngon8 [] n = 12 -> Ngon12
             [] n = 7 -> Ngon7 [] n = 9 -> Ngon9 [] n = 10 -> Ngon10 [] n = 11 -> Ngon11 [] n = 16 -> Ngon16
NgonSizes == {3,4,5,6,7,8,9,10,11,12,16}

(* CosT[d+1], SinT[d+1]: cos and sin of 15*d degrees, times 1000 *)
CosT == <<1000,966,866,707,500,259,0,-259,-500,-707,-866,-966,-1000,-966,-866,-707,-500,-259,0,259,500,707,866,966>>
SinT == <<0,259,500,707,866,966,1000,966,866,707,500,259,0,-259,-500,-707,-866,-966,-1000,-966,-866,-707,-500,-259>>
=============================================================================
