//! Written by tools/gencorpus.py: random grammars that an independent type checker accepts.
use crate::corpus;
corpus! {
    r00 7 { let rec = !(/Fix/ "é" . Fix | ("+\n+" . Fix | "d" . "+e")) : part1 | "e"; let opt = rec . rec : lit1; match rec . rec; }
    r01 7 { let y = !(/Fix/ "+" . ("c" : Box | Fix) . "c" | "b" . Fix) . _; match y | "€" . _ . y : _1; }
    r02 7 { let Fix y = "b" . !(/x/ "a" : Lit) : part1; match Fix !(/ast/ "€" . Fix ast . "a" : fix_2 | ast) . Fix _ | "a" . "a" . "bb" : Box; }
    r03 7 { match "\\" | "b" . !(/ast/ ("cc" . "e" | !(/Box/ "\\\\b" . ast) . ast . ast) : branch2 | "b" | "a") . "e\\e"; }
    r04 7 { match (!(/part1/ "+" . "" : Fix) . !(/part1/ "d" . part1 | !(/alt_2/ _ | "éd€" . part1 : x))) . "\n" . "\\"; }
    r05 7 { let opt = "+"; let x Cat1 = !(/Cat1/ ("\\" | opt : Ast) . "+c") . "+" | "e" : _1; let ast = opt . x opt; match "+" . x ast : Ast; }
    r06 7 { let x = !(/y/ "c" . _); match x . x | "b\n" . x : x; }
    r07 7 { match !(/lit1/ "e" | "a" . !(/ast/ "e" . ast | "c" . lit1 . _) : x) . "ee" | "c" . "a" : branch2; }
    r08 7 { match !(/y/ "c" . !(/part1/ "d" . part1 | y : Alt | "\n" . "é" . "" : Alt) | "\\") . _; }
    r09 7 { let rec y alt_2 = "\n" . "\n" | "e" . !(/x/ "\n" . ("beb" . x : part1) : _1 | "€" . "€\n") . "+" : x; match rec _ "\n" . "b" . rec _ "€"; }
    r10 7 { let part1 = !(/_p/ "c" . !(/opt/ _p . _p | "\\" . "é") : Ast | "+") | "é" . "a" . _ : fix_2; let alt_2 = "d"; match part1 : Ast; }
    r11 7 { let opt part1 = part1 . part1; let Cat1 = opt "\n" : fix_2 | opt !(/Box/ opt "e" . opt Box | "b" : Alt); match Cat1; }
    r12 7 { match !(/Fix/ "€e" . Fix | "\n") : Box | (!(/part1/ !(/part1/ "c") . "é" : cat | "é" . "c") . _ : lit1 | _); }
    r13 7 { match !(/y/ "b" . y | _ : branch2) | !(/lit1/ "é" . "d+" | "a" . lit1) | "\n" . "a" . _ : _1; }
    r14 7 { let Cat1 = !(/ast/ "c" . ast . ("d" . ast | "e") | "€") : Alt | "a" . "é"; match Cat1 . Cat1; }
    r15 7 { let Fix part1 opt = !(/Fix/ "+d" . "a" | "c"); match Fix !(/Cat1/ !(/rec/ rec : cat) | Cat1 . Fix _ _) _ . Fix _ _ . "" | "a" . Fix _ "\n" : cat; }
    r16 7 { match "e\\é" . "\\" | "\\" . !(/part1/ !(/Box/ "\\" | "b") . part1 | "e" . part1 . "a" : branch2 | _) | _; }
    r17 6 { let Fix part1 y = !(/rec/ !(/x/ part1 . "é" : fix_2) . "é" . (rec | part1)) . "\n" | part1 | "a" : Box; let y Fix = "€b" . Fix . "c" | "e"; match y "+"; }
    r18 7 { match !(/Fix/ "\nc" . (!(/part1/ Fix . Fix . "a" | "a" . "\n" . part1) . Fix . Fix | "+" . "") : Fix) . _ | "\\" . _ | _ : fix_2; }
    r19 7 { let rec Cat1 = "\nc" . Cat1; let opt part1 x = "e€c" . part1 | x . rec part1; match !(/x/ "b" . ("€\nb" | rec x . _) : branch2); }
    r20 14 { let Cat1 = !(/lit1/ "e" . lit1 : branch2 | "\neé" . "\nb" : cat) . "\n"; let Fix Fix = (Fix | Cat1 | _) . "a" . Cat1 | "b\né" . Cat1 . Cat1; let part1 lit1 = lit1; match Cat1 . Cat1; }
    r21 7 { match !(/Cat1/ "b" . ("€" . Cat1 | "a" . "b" : part1 | Cat1 . Cat1 . Cat1) : fix_2 | "\n" . Cat1 . "d" : Lit) . "a" . _ | "e" : cat; }
    r22 7 { let Fix = !(/rec/ ("+" : Lit | "\n" . "+" : branch2) : Ast | "d" . rec) . _; match Fix . Fix; }
    r23 7 { match !(/part1/ !(/rec/ "e" . _ | "a€e" . part1 . part1) : lit1) . "e" : Lit | _; }
    r24 7 { let opt = "d" . !(/lit1/ "a" . (lit1 . "d" . lit1 : branch2 | "bc" . lit1 . lit1) | "\n" . "a") | _; let alt_2 = "bd"; let Fix = alt_2; match opt; }
    r25 7 { let Box Fix = "é" . ("\\e" . !(/Cat1/ Fix)) | Fix; match "a" . !(/y/ "cé\\" . Box "+" . y : Lit | "e") . Box _ : fix_2 | _; }
    r26 7 { let Box = !(/x/ !(/part1/ "d\\" . x . x | "\n" . part1) . "a" | "\\" . ("c" | "da" . x : lit1) : part1) : Lit | _ : Alt; match "\\" . Box : Fix; }
    r27 7 { match !(/rec/ "\nd" | "€c" . rec : part1); }
    r28 7 { let part1 Box = "€" . Box . Box; match part1 !(/Cat1/ "bé" | part1 "\\" : part1) | "++é"; }
    r29 7 { match !(/y/ "b" . !(/_p/ y . y) | "\\") . "\n" | _ : lit1; }
    r30 7 { match !(/Fix/ "+" . Fix . Fix | "c" : lit1) : lit1; }
    r31 7 { let lit1 = !(/part1/ "€" | "é" . ("é" . part1 . part1)); match lit1 . lit1; }
    r32 7 { let opt = !(/lit1/ "\\") . "e"; match "\n" . opt | opt . "e" . _ : fix_2; }
    r33 7 { let Box rec = rec . rec; match Box !(/ast/ Box "+" : Alt | Box ("a") . ast) . _; }
    r34 7 { let x x ast = "c" . "d\n\n" : _1 | !(/Fix/ "b\\" . x : part1 | "a" . Fix . "e") . x; let _p = x "b\n" "" . "\n"; match _p; }
    r35 7 { match !(/lit1/ !(/Cat1/ "+" | "\\" . lit1)); }
    r36 7 { let Fix ast = "b" | !(/rec/ "e" . rec . "é" | "€") . _ . "+"; let Fix alt_2 = alt_2 . Fix "\\€" . Fix alt_2 : x; match Fix "€e" : x; }
    r37 7 { match "b" . !(/_p/ "e" . "b" | !(/rec/ "a" . "c" . _p) : Ast) : _1 | "c" . "é" : Box; }
    r38 7 { match _ | (!(/Box/ "é\\" | "\n" | !(/alt_2/ "\\é" . Box : fix_2 | "++" . "é") . Box) . "€" : Fix) : Lit; }
    r39 7 { match "d" . !(/opt/ "d" . opt . opt | ("\nd" . !(/Box/ "d\n€" . opt . "€" : branch2 | "e" . "ddd" . "") : cat | "€" . opt) : Ast) | "+€" | _; }
    r40 7 { match !(/y/ "\\" . y | "c" : Fix); }
    r41 8 { let ast = !(/y/ "+" . "d" | !(/Fix/ "cb" | "éd") . y) . !(/Fix/ "e" : x) : part1; let part1 = "e+" . ast | ast : Box; match ast . ast : Alt; }
    r42 7 { let part1 rec Cat1 = "é€" . !(/x/ "a" . "\\"); let ast = "d"; match part1 ast ast . ast | ast; }
    r43 7 { let alt_2 Cat1 = !(/lit1/ "\n" | !(/Cat1/ "d" | "e" . Cat1 . Cat1 : x)) : lit1; let part1 = _ . "\n" . "\\" | alt_2 "d\n" | alt_2 _ . _ . _; match alt_2 _; }
    r44 7 { let _p = "\n" : Lit | !(/ast/ "e" . ast . ("\\b" . "\\") | "€" : _1 | "b") . "c"; let Box = _p . "é\n"; match _p . "a" : Fix; }
    r45 7 { let part1 part1 opt = "e" : part1; match !(/opt/ "€" . part1 "\n" _ | part1 opt "b") . part1 "b" _; }
    r46 7 { match !(/lit1/ !(/Box/ "d" . lit1 : Lit) . "" : Fix | "\ne"); }
    r47 7 { let ast = !(/Cat1/ "e") | "a" : x; match "+" . ast : Box | ast . "€"; }
    r48 10 { let ast = "a\\e" . !(/x/ !(/part1/ "\\") . "ce" . "€"); match ast . ast : fix_2 | "é" . ast; }
    r49 7 { let alt_2 = !(/Fix/ "c" . Fix . Fix | !(/part1/ "€" : Fix) . ("e" . _ : Fix | Fix . "" : _1) : Fix); match alt_2 . alt_2 : Lit; }
    r50 7 { let lit1 part1 = "é" . part1; match "\\" . lit1 !(/part1/ "\n" . "da" | "b" . part1); }
    r51 7 { match "é" | "€" . !(/_p/ ("e+" . !(/part1/ _p . "e" : Lit | "c" . _) | "é" . "é") . "cc" | "\\\\" . "d" | "\née" . "c\n" . _p : Lit); }
    r52 7 { let x opt x = x : lit1 | "b" . "€"; match !(/ast/ "€" . x ast ast | "\\" . ast) : _1; }
    r53 7 { match !(/opt/ "+" | "a" . opt . "+" : lit1) . ("c" . _ . "€a" | _) . "€"; }
    r54 7 { let rec = (!(/Fix/ !(/rec/ "é" : branch2) . Fix | "\\" . "c") : x) | "b"; match rec . rec : lit1; }
    r55 7 { match !(/Box/ !(/y/ (("b" . y | "é" . "c") : _1)) . "€" . Box | "c€e"); }
    r56 7 { match !(/part1/ "e" . part1 . part1 | "é") : Fix; }
    r57 7 { let ast = "a" . !(/rec/ "é" . rec . rec | "a" : lit1) | "d" . ""; match ast . "é"; }
    r58 7 { let lit1 lit1 alt_2 = alt_2 . "cé+" . !(/Cat1/ alt_2 . !(/lit1/ ("d" . "€") . "e" : Lit | Cat1 . alt_2) : Alt | "+b" : cat) : x | _ | lit1 . alt_2; let x _p = "€"; match lit1 "é" "c"; }
    r59 7 { let part1 lit1 alt_2 = !(/y/ alt_2) | "€" . "dé" : _1; match "b" | part1 _ !(/ast/ "+" . part1 (ast . ast | part1 ast ast | part1 ast _) ast : _1) . _ : lit1 | "é" . part1 "\\" _; }
    r60 7 { match "a" . "é" : _1 | !(/rec/ !(/part1/ !(/rec/ "€" . rec | "c" . _) | "\\" . "b" . part1 | "é")) . _; }
    r61 7 { match "b" . "" | "+" . !(/y/ "é" . y | "d" . "d" : Ast); }
    r62 7 { let y x = "+a"; let rec alt_2 = "é" | "b" . alt_2; match y !(/alt_2/ "" . alt_2 | alt_2 : lit1 | alt_2) . !(/ast/ rec ast . y ast) : Fix; }
    r63 7 { let Fix = !(/Box/ "\\") . _ : x; let part1 Fix alt_2 = "d" . Fix . Fix | "e" . Fix; match "a" . "b" . part1 "b" _ | part1 Fix Fix . Fix; }
    r64 7 { match "+" . !(/rec/ ("dcd" | "a" . rec) : cat | "béa" . rec) | "€" . _; }
    r65 7 { let alt_2 Fix = !(/_p/ "é" . !(/x/ "\\" : lit1 | "a" . Fix) . _p | "\\" . Fix) | _; match alt_2 _; }
    r66 7 { let Cat1 rec = (("\n" | "+" . "\\") : Fix) | "e" . rec; let Cat1 = !(/x/ Cat1 _); match Cat1 . Cat1 . "" : part1 | ""; }
    r67 7 { let x = "+" . !(/Fix/ !(/rec/ "\\+a" . "\\" . Fix) . "\n" | "\n") . "c" | "\\"; match x . _ . x : part1; }
    r68 7 { match !(/rec/ "d" . !(/ast/ "aée" | rec . "\\") . rec : Ast | "\\€c" . "d") . "c"; }
    r69 7 { let rec part1 = "\\" . part1; match !(/y/ "+\\e" | rec y . _ : cat); }
    r70 7 { let ast = (!(/part1/ "b" . part1 . !(/Box/ part1 : fix_2) : x | "€") : _1); match _ | "é\n+" . ast : x; }
    r71 7 { let Box part1 = part1 | "é" . part1 : Alt; match Box !(/Box/ "cc" . Box : Fix | "+" . "c") : part1; }
    r72 7 { match "eec" | !(/x/ "a" . x | "") : fix_2; }
    r73 7 { let opt y part1 = "c"; match !(/y/ opt y !(/rec/ opt "\n" "\n" . opt y y) . y . y : fix_2 | "e" . opt "c€\\" y . opt y y) : Lit; }
    r74 14 { let Box Box = !(/opt/ "\nb" : branch2) . Box; let ast = Box "d" . Box "c" | "a" . Box "c\n" : _1; match Box ast . ast : x; }
    r75 7 { let Box = !(/Fix/ "+" . "") . !(/part1/ ("b" | "e" . "+") | _) | _; match "b" . Box : Ast; }
    r76 7 { match "é" . !(/Box/ "€\n" : Ast | "\n" . Box) : part1; }
    r77 7 { match !(/_p/ "\n" . "" . !(/Box/ ((_p . _ . "+" | "+" . "\n") . "+") . _p) | "a" : part1) . _ : cat | "€+" . _; }
    r78 7 { match "\\" . !(/Box/ "a" . Box . "é€" | "+" . "") : Box | _; }
    r79 7 { let Fix = !(/rec/ !(/Fix/ "€€" . rec : Box | "a") . "" : branch2) . _ : part1; match "€" . "b" . Fix; }
    r80 7 { let lit1 Cat1 = Cat1 . Cat1 | "€"; match "\n" . !(/opt/ "é" . lit1 opt | "\n") | _; }
    r81 7 { let rec = "\n" | !(/opt/ "+" : _1) . _; let Cat1 opt = rec . opt; match _ | rec . rec | "d" . Cat1 rec . ""; }
    r82 9 { let lit1 rec = !(/part1/ "+" . "\\" | "d") . "é\na" . "b\n\n" : fix_2; match !(/opt/ "\n\\" . lit1 "d" . opt : Ast | lit1 (opt | "d" . opt)); }
    r83 7 { let _p = "+" | !(/Box/ "€ab" | "e" . Box) . "bb" : cat; let opt Cat1 = "\\" . Cat1 | "d" . Cat1 : fix_2; match "€" . opt "+éb"; }
    r84 7 { let Cat1 Box lit1 = (lit1 | "c" | !(/y/ "\n" . Box | "b" . "\n" . "b") . Box : x) | "€" . "\\\\"; match Cat1 "\n" _; }
    r85 7 { let x = !(/y/ "bé" . y . y | "d" . "+") . _ | "é" . "é" : Box; match x . x : Alt; }
    r86 7 { let y Box y = "b" . ("a" . Box : part1) . !(/Fix/ y | Box . _ | "a" . Fix : Alt) : Alt | y . Box . "e"; let lit1 = "e" . _; match lit1 . y lit1 "\\b"; }
    r87 7 { match !(/opt/ "ed" . _ . !(/Fix/ "\n€" . Fix | "é" . !(/Box/ (("+" . "\\" . "aaé") | "a") . "c" | opt . Box : Lit)) | "\\" . "€\n" . opt | "d" : part1) . "a" | "+"; }
    r88 7 { let opt y _p = "é"; match !(/Box/ !(/Fix/ opt Box (opt Fix Fix . opt Box "\\" | opt _ "\\" . opt Box Box : Box | "é" : Fix) . opt Fix Fix) . opt Box "é") . "a" | _ : Fix | "daa" . "e" : lit1; }
    r89 7 { let part1 y lit1 = "\\" . "€" . y; match !(/_p/ "b+" . part1 "cc" _p) . !(/part1/ ("e" . part1 | "é" . _) . "\\é" . "éea" | "cé\\") : lit1 | part1 _ "é"; }
}
