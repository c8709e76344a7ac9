package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// ---- theory axioms: included when every symbol they mention occurs ----
type thAxiom struct {
	name string
	need []string
	text string
}

var theory = []thAxiom{
	{"slen-nonneg", []string{"slen"}, "(forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s))))"},
	{"slen-cat", []string{"slen", "cat"}, "(forall ((a Str) (b Str)) (! (= (slen (cat a b)) (+ (slen a) (slen b))) :pattern ((cat a b))))"},
	{"cat-empty-l", []string{"slen", "cat"}, "(forall ((a Str) (b Str)) (! (=> (= (slen a) 0) (= (cat a b) b)) :pattern ((cat a b))))"},
	{"cat-empty-r", []string{"slen", "cat"}, "(forall ((a Str) (b Str)) (! (=> (= (slen b) 0) (= (cat a b) a)) :pattern ((cat a b))))"},
	{"cat-assoc", []string{"cat"}, "(forall ((a Str) (b Str) (c Str)) (! (= (cat (cat a b) c) (cat a (cat b c))) :pattern ((cat (cat a b) c))))"},
	{"slen-substr", []string{"slen", "substr"}, "(forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s))) (= (slen (substr s a b)) (- b a))) :pattern ((substr s a b))))"},
	{"substr-full", []string{"slen", "substr"}, "(forall ((s Str) (b Int)) (! (=> (= b (slen s)) (= (substr s 0 b) s)) :pattern ((substr s 0 b))))"},
	{"substr-split", []string{"slen", "substr", "cat"}, "(forall ((s Str) (a Int) (b Int) (c Int)) (! (=> (and (<= 0 a) (<= a b) (<= b c) (<= c (slen s))) (= (cat (substr s a b) (substr s b c)) (substr s a c))) :pattern ((cat (substr s a b) (substr s b c)))))"},
	{"substr-substr", []string{"slen", "substr"}, "(forall ((s Str) (a Int) (b Int) (c Int) (d Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 c) (<= c d) (<= d (- b a))) (= (substr (substr s a b) c d) (substr s (+ a c) (+ a d)))) :pattern ((substr (substr s a b) c d))))"},
	{"substr-cat-l", []string{"slen", "substr", "cat"}, "(forall ((p Str) (q Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen p))) (= (substr (cat p q) a b) (substr p a b))) :pattern ((substr (cat p q) a b))))"},
	{"substr-cat-r", []string{"slen", "substr", "cat"}, "(forall ((p Str) (q Str) (a Int) (b Int)) (! (=> (and (<= (slen p) a) (<= a b) (<= b (+ (slen p) (slen q)))) (= (substr (cat p q) a b) (substr q (- a (slen p)) (- b (slen p))))) :pattern ((substr (cat p q) a b))))"},
	{"sat-byte", []string{"slen", "sat"}, "(forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (and (<= 0 (sat s i)) (< (sat s i) 256))) :pattern ((sat s i))))"},
	{"sat-cat", []string{"slen", "sat", "cat"}, "(forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (cat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (cat a b) i))))"},
	{"sat-substr", []string{"slen", "sat", "substr"}, "(forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= 0 i) (< i (- b a)) (<= b (slen s))) (= (sat (substr s a b) i) (sat s (+ a i)))) :pattern ((sat (substr s a b) i))))"},
	{"itoa-atoi", []string{"itoa"}, ""},
	{"itoa-len", []string{"itoa", "slen"}, "(forall ((n Int)) (! (and (>= (slen (itoa n)) 1) (=> (and (<= 0 n) (< n 10)) (= (slen (itoa n)) 1)) (=> (and (<= 10 n) (< n 100)) (= (slen (itoa n)) 2)) (=> (and (<= 100 n) (< n 1000)) (= (slen (itoa n)) 3))) :pattern ((itoa n))))"},
	{"atoi-itoa", []string{"itoa", "atoiVal"}, "(forall ((n Int)) (! (= (atoiVal (itoa n)) n) :pattern ((itoa n))))"},
	{"atoiok-itoa", []string{"itoa", "atoiOK"}, "(forall ((n Int)) (! (atoiOK (itoa n)) :pattern ((itoa n))))"},
	{"repeat-len", []string{"repeat", "slen"}, "(forall ((s Str) (n Int)) (! (= (slen (repeat s n)) (ite (> n 0) (* n (slen s)) 0)) :pattern ((repeat s n))))"},
	{"repeat-width", []string{"repeat", "swidth"}, "(forall ((s Str) (n Int)) (! (=> (<= n 0) (= (swidth (repeat s n)) 0)) :pattern ((repeat s n))))"},
	{"swidth-nonneg", []string{"swidth"}, "(forall ((s Str)) (! (>= (swidth s) 0) :pattern ((swidth s))))"},
	{"uwidth-nonneg", []string{"uwidth"}, "(forall ((s Str)) (! (>= (uwidth s) 0) :pattern ((uwidth s))))"},
	{"runestr-len", []string{"runeStr", "slen"}, "(forall ((r Int)) (! (and (<= 1 (slen (runeStr r))) (<= (slen (runeStr r)) 4) (=> (and (<= 0 r) (< r 128)) (= (slen (runeStr r)) 1))) :pattern ((runeStr r))))"},
	{"runestr-ascii", []string{"runeStr", "sat"}, "(forall ((r Int)) (! (=> (and (<= 0 r) (< r 128)) (= (sat (runeStr r) 0) r)) :pattern ((runeStr r))))"},
	{"runecount-nonneg", []string{"runeCount"}, "(forall ((s Str)) (! (<= 0 (runeCount s)) :pattern ((runeCount s))))"},
	{"runecount-range", []string{"runeCount", "slen"}, "(forall ((s Str)) (! (and (<= 0 (runeCount s)) (<= (runeCount s) (slen s)) (=> (= (runeCount s) 0) (= (slen s) 0))) :pattern ((runeCount s))))"},
	{"hasprefix-len", []string{"hasPrefix", "slen"}, "(forall ((s Str) (p Str)) (! (=> (hasPrefix s p) (>= (slen s) (slen p))) :pattern ((hasPrefix s p))))"},
	{"hasprefix-def", []string{"hasPrefix", "slen", "substr"}, "(forall ((s Str) (p Str)) (! (= (hasPrefix s p) (and (>= (slen s) (slen p)) (= (substr s 0 (slen p)) p))) :pattern ((hasPrefix s p))))"},
	{"hasprefix-at", []string{"hasPrefix", "slen", "sat"}, "(forall ((s Str) (p Str) (i Int)) (! (=> (and (hasPrefix s p) (<= 0 i) (< i (slen p))) (= (sat s i) (sat p i))) :pattern ((hasPrefix s p) (sat s i))))"},
	{"hassuffix-len", []string{"hasSuffix", "slen"}, "(forall ((s Str) (p Str)) (! (=> (hasSuffix s p) (>= (slen s) (slen p))) :pattern ((hasSuffix s p))))"},
	{"hassuffix-cat", []string{"hasSuffix", "cat"}, "(forall ((s Str) (p Str)) (! (hasSuffix (cat s p) p) :pattern ((hasSuffix (cat s p) p))))"},
	{"strless-irr", []string{"strLess"}, "(forall ((a Str) (b Str)) (! (and (not (and (strLess a b) (strLess b a))) (=> (not (= a b)) (or (strLess a b) (strLess b a)))) :pattern ((strLess a b))))"},
	{"strless-trans", []string{"strLess"}, "(forall ((a Str) (b Str) (c Str)) (! (=> (and (strLess a b) (strLess b c)) (strLess a c)) :pattern ((strLess a b) (strLess b c))))"},
	{"equalfold", []string{"equalFold"}, "(forall ((a Str) (b Str)) (! (and (equalFold a a) (= (equalFold a b) (equalFold b a)))  :pattern ((equalFold a b))))"},
	{"glen-nonneg", []string{"glen"}, "(forall ((s Str)) (! (<= 0 (glen s)) :pattern ((glen s))))"},
	{"glen-range", []string{"glen", "slen"}, "(forall ((s Str)) (! (and (<= 0 (glen s)) (<= (glen s) (slen s)) (= (= (glen s) 0) (= (slen s) 0))) :pattern ((glen s))))"},
	{"gpos-0", []string{"gpos", "glen"}, "(forall ((s Str)) (! (= (gpos s 0) 0) :pattern ((gpos s 0)) :pattern ((glen s))))"},
	{"gpos-end", []string{"gpos", "glen", "slen"}, "(forall ((s Str)) (! (and (= (gpos s (glen s)) (slen s)) (<= (glen s) (slen s)) (=> (= (glen s) 0) (= (slen s) 0)) (=> (= (slen s) 0) (= (glen s) 0))) :pattern ((glen s))))"},
	{"gpos-mono", []string{"gpos", "glen"}, "(forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (<= j (glen s))) (< (gpos s i) (gpos s j))) :pattern ((gpos s i) (gpos s j))))"},
	{"gpos-range", []string{"gpos", "glen", "slen"}, "(forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (<= i (glen s))) (and (<= 0 (gpos s i)) (<= (gpos s i) (slen s)))) :pattern ((gpos s i))))"},
	{"glen-prefix", []string{"gpos", "glen", "substr"}, "(forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (<= i (glen s))) (= (glen (substr s 0 (gpos s i))) i)) :pattern ((substr s 0 (gpos s i)))))"},
	{"gpos-prefix", []string{"gpos", "glen", "substr"}, "(forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 j) (<= j i) (<= i (glen s))) (= (gpos (substr s 0 (gpos s i)) j) (gpos s j))) :pattern ((gpos (substr s 0 (gpos s i)) j))))"},
	{"glen-cat", []string{"glen", "cat", "validUTF8"}, "(forall ((a Str) (b Str)) (! (=> (and (validUTF8 a) (validUTF8 b)) (<= (glen a) (glen (cat a b)))) :pattern ((glen (cat a b)))))"},
	{"glen-cat3", []string{"glen", "cat", "validUTF8"}, "(forall ((a Str) (b Str) (c Str)) (! (=> (and (validUTF8 a) (validUTF8 b) (validUTF8 c)) (<= (glen (cat a b)) (glen (cat a (cat b c))))) :pattern ((glen (cat a (cat b c))) (cat a b))))"},
	{"gpos-valid", []string{"gpos", "glen", "substr", "validUTF8"}, "(forall ((s Str) (i Int) (j Int)) (! (=> (and (validUTF8 s) (<= 0 i) (<= i j) (<= j (glen s))) (validUTF8 (substr s (gpos s i) (gpos s j)))) :pattern ((validUTF8 (substr s (gpos s i) (gpos s j))))))"},
	{"gpos-valid-l", []string{"gpos", "glen", "substr", "validUTF8"}, "(forall ((s Str) (j Int)) (! (=> (and (validUTF8 s) (<= 0 j) (<= j (glen s))) (validUTF8 (substr s 0 (gpos s j)))) :pattern ((validUTF8 (substr s 0 (gpos s j))))))"},
	{"gpos-valid-r", []string{"gpos", "glen", "slen", "substr", "validUTF8"}, "(forall ((s Str) (i Int) (j Int)) (! (=> (and (validUTF8 s) (<= 0 i) (<= i (glen s)) (= j (slen s))) (validUTF8 (substr s (gpos s i) j))) :pattern ((validUTF8 (substr s (gpos s i) j)))))"},
	{"sqrt", []string{"sqrt"}, "(forall ((a Real)) (! (=> (>= a 0.0) (and (>= (sqrt a) 0.0) (= (* (sqrt a) (sqrt a)) a))) :pattern ((sqrt a))))"},
	{"bitand", []string{"bitand"}, "(forall ((a Int) (b Int)) (! (and (=> (>= a 0) (and (<= 0 (bitand a b)) (<= (bitand a b) a))) (=> (>= b 0) (and (<= 0 (bitand a b)) (<= (bitand a b) b)))) :pattern ((bitand a b))))"},
	{"tdiv", []string{"tdiv"}, "(forall ((a Int) (b Int)) (! (and (=> (and (>= a 0) (> b 0)) (= (tdiv a b) (div a b))) (=> (and (< a 0) (> b 0)) (= (tdiv a b) (- (div (- a) b)))) (=> (and (>= a 0) (< b 0)) (= (tdiv a b) (- (div a (- b))))) (=> (and (< a 0) (< b 0)) (= (tdiv a b) (div (- a) (- b))))) :pattern ((tdiv a b))))"},
	{"bitor", []string{"bitor"}, "(forall ((a Int) (b Int)) (! (=> (and (>= a 0) (>= b 0)) (and (>= (bitor a b) a) (>= (bitor a b) b) (<= (bitor a b) (+ a b)))) :pattern ((bitor a b))))"},
	{"bytesStr-len", []string{"bytesStr", "slen"}, "(forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (slen (bytesStr a o n)) n)) :pattern ((bytesStr a o n))))"},
	{"bytesStr-at", []string{"bytesStr", "sat"}, "(forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (bytesStr a o n) i) (select a (+ o i)))) :pattern ((sat (bytesStr a o n) i))))"},
	{"bytesOf-at", []string{"bytesOf", "sat"}, "(forall ((s Str) (i Int)) (! (= (select (bytesOf s) i) (sat s i)) :pattern ((select (bytesOf s) i))))"},
	{"bytesStr-bytesOf", []string{"bytesOf", "bytesStr", "slen"}, "(forall ((s Str)) (! (= (bytesStr (bytesOf s) 0 (slen s)) s) :pattern ((bytesOf s))))"},
	{"bytesStr-empty", []string{"bytesStr", "slen"}, "(forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= n 0) (= (slen (bytesStr a o n)) 0)) :pattern ((bytesStr a o n))))"},
	{"runesOf-runeAt", []string{"runesOf", "runeAt", "slen"}, "(forall ((s Str)) (! (=> (> (slen s) 0) (= (select (runesOf s) 0) (runeAt s 0))) :pattern ((runesOf s))))"},
	{"runesStr-runesOf", []string{"runesOf", "runesStr", "runeCount", "validUTF8"}, "(forall ((s Str)) (! (=> (validUTF8 s) (= (runesStr (runesOf s) 0 (runeCount s)) s)) :pattern ((runesOf s))))"},
	{"validStr", []string{"validStr", "validUTF8"}, "(forall ((s Str)) (! (=> (validUTF8 s) (= (validStr s) s)) :pattern ((validStr s))))"},
	{"runesOf-valid", []string{"runesOf", "runeCount"}, "(forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (runeCount s))) (let ((r (select (runesOf s) i))) (or (and (<= 0 r) (< r 55296)) (and (<= 57344 r) (<= r 1114111))))) :pattern ((select (runesOf s) i))))"},
	{"runesStr-count", []string{"runesStr", "runeCount"}, "(forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (runeCount (runesStr a o n)) n)) :pattern ((runesStr a o n))))"},
	{"runesStr-at", []string{"runesStr", "runesOf"}, "(forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (select (runesOf (runesStr a o n)) i) (let ((r (select a (+ o i)))) (ite (or (and (<= 0 r) (< r 55296)) (and (<= 57344 r) (<= r 1114111))) r 65533)))) :pattern ((select (runesOf (runesStr a o n)) i))))"},
	{"runesStr-valid", []string{"runesStr", "validUTF8"}, "(forall ((a (Array Int Int)) (o Int) (n Int)) (! (validUTF8 (runesStr a o n)) :pattern ((runesStr a o n))))"},
	{"runeSub-count", []string{"runeSub", "runeCount"}, "(forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (runeCount s))) (= (runeCount (runeSub s a b)) (- b a))) :pattern ((runeSub s a b))))"},
	{"runeSub-at", []string{"runeSub", "runesOf", "runeCount"}, "(forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= 0 i) (< i (- b a)) (<= b (runeCount s))) (= (select (runesOf (runeSub s a b)) i) (select (runesOf s) (+ a i)))) :pattern ((select (runesOf (runeSub s a b)) i))))"},
	{"runeSub-valid", []string{"runeSub", "validUTF8"}, "(forall ((s Str) (a Int) (b Int)) (! (validUTF8 (runeSub s a b)) :pattern ((runeSub s a b))))"},
	{"runeSub-full", []string{"runeSub", "runeCount", "validUTF8"}, "(forall ((s Str) (b Int)) (! (=> (and (validUTF8 s) (= b (runeCount s))) (= (runeSub s 0 b) s)) :pattern ((runeSub s 0 b))))"},
	{"runeSub-empty", []string{"runeSub", "slen"}, "(forall ((s Str) (a Int) (b Int)) (! (=> (<= b a) (= (slen (runeSub s a b)) 0)) :pattern ((runeSub s a b))))"},
	{"validStr-valid", []string{"validStr", "validUTF8"}, "(forall ((s Str)) (! (validUTF8 (validStr s)) :pattern ((validStr s))))"},
	{"validStr-count", []string{"validStr", "runeCount"}, "(forall ((s Str)) (! (= (runeCount (validStr s)) (runeCount s)) :pattern ((validStr s))))"},
	{"validStr-at", []string{"validStr", "runesOf"}, "(forall ((s Str)) (! (= (runesOf (validStr s)) (runesOf s)) :pattern ((runesOf (validStr s)))))"},
	{"runeStr-count", []string{"runeStr", "runeCount"}, "(forall ((r Int)) (! (= (runeCount (runeStr r)) 1) :pattern ((runeStr r))))"},
	{"runeStr-at", []string{"runeStr", "runesOf"}, "(forall ((r Int)) (! (= (select (runesOf (runeStr r)) 0) (ite (or (and (<= 0 r) (< r 55296)) (and (<= 57344 r) (<= r 1114111))) r 65533)) :pattern ((runesOf (runeStr r)))))"},
	{"runeStr-valid", []string{"runeStr", "validUTF8"}, "(forall ((r Int)) (! (validUTF8 (runeStr r)) :pattern ((runeStr r))))"},
	{"cat-count", []string{"cat", "runeCount", "validUTF8"}, "(forall ((a Str) (b Str)) (! (=> (and (validUTF8 a) (validUTF8 b)) (= (runeCount (cat a b)) (+ (runeCount a) (runeCount b)))) :pattern ((runeCount (cat a b)))))"},
	{"cat-runes", []string{"cat", "runesOf", "runeCount", "validUTF8"}, "(forall ((a Str) (b Str) (i Int)) (! (=> (and (validUTF8 a) (validUTF8 b) (<= 0 i) (< i (+ (runeCount a) (runeCount b)))) (= (select (runesOf (cat a b)) i) (ite (< i (runeCount a)) (select (runesOf a) i) (select (runesOf b) (- i (runeCount a)))))) :pattern ((select (runesOf (cat a b)) i))))"},
	{"cat-valid", []string{"cat", "validUTF8"}, "(forall ((a Str) (b Str)) (! (=> (and (validUTF8 a) (validUTF8 b)) (validUTF8 (cat a b))) :pattern ((validUTF8 (cat a b)))))"},
	{"empty-runes", []string{"runeCount", "slen"}, "(forall ((s Str)) (! (=> (= (slen s) 0) (= (runeCount s) 0)) :pattern ((runeCount s))))"},
	{"empty-valid", []string{"validUTF8", "slen"}, "(forall ((s Str)) (! (=> (= (slen s) 0) (validUTF8 s)) :pattern ((validUTF8 s))))"},
	{"split-valid", []string{"validUTF8", "split.a"}, "(forall ((s Str) (p Str) (i Int)) (! (=> (and (validUTF8 s) (validUTF8 p) (<= 0 i) (< i (split.n s p))) (validUTF8 (select (split.a s p) i))) :pattern ((select (split.a s p) i))))"},
	{"split-part", []string{"strContains", "split.a", "slen"}, "(forall ((s Str) (p Str) (i Int)) (! (=> (and (>= (slen p) 1) (<= 0 i) (< i (split.n s p))) (not (strContains (select (split.a s p) i) p))) :pattern ((select (split.a s p) i))))"},
	{"split-one", []string{"split.n", "split.a", "slen"}, "(forall ((s Str) (p Str)) (! (=> (and (>= (slen p) 1) (= (split.n s p) 1)) (= (select (split.a s p) 0) s)) :pattern ((split.n s p))))"},
	{"split-none", []string{"split.n", "strContains", "slen"}, "(forall ((s Str) (p Str)) (! (=> (>= (slen p) 1) (= (= (split.n s p) 1) (not (strContains s p)))) :pattern ((split.n s p)) :pattern ((strContains s p))))"},
	{"split-cat", []string{"split.n", "cat", "slen"}, "(forall ((a Str) (b Str) (p Str)) (! (=> (= (slen p) 1) (= (split.n (cat a b) p) (+ (split.n a p) (split.n b p) (- 1)))) :pattern ((split.n (cat a b) p))))"},
	{"split-n", []string{"split.n", "slen"}, "(forall ((s Str) (p Str)) (! (=> (>= (slen p) 1) (>= (split.n s p) 1)) :pattern ((split.n s p))))"},
	{"split-join-n", []string{"split.n", "sjoin", "strContains", "slen"}, "(forall ((a (Array Int Str)) (n Int) (p Str)) (! (=> (and (>= n 1) (= (slen p) 1) (forall ((j Int)) (! (=> (and (<= 0 j) (< j n)) (not (strContains (select a j) p))) :pattern ((select a j))))) (= (split.n (sjoin a n p) p) n)) :pattern ((sjoin a n p))))"},
	{"split-join-at", []string{"split.a", "sjoin", "strContains", "slen"}, "(forall ((a (Array Int Str)) (n Int) (p Str)) (! (=> (and (>= n 1) (= (slen p) 1) (forall ((j Int)) (! (=> (and (<= 0 j) (< j n)) (not (strContains (select a j) p))) :pattern ((select a j))))) (forall ((i Int)) (! (=> (and (<= 0 i) (< i n)) (= (select (split.a (sjoin a n p) p) i) (select a i))) :pattern ((select (split.a (sjoin a n p) p) i))))) :pattern ((sjoin a n p))))"},
	{"contains-cat", []string{"cat", "strContains", "slen"}, "(forall ((a Str) (b Str) (p Str)) (! (=> (= (slen p) 1) (= (strContains (cat a b) p) (or (strContains a p) (strContains b p)))) :pattern ((strContains (cat a b) p))))"},
	{"contains-repeat", []string{"repeat", "strContains", "slen"}, "(forall ((s Str) (n Int) (p Str)) (! (=> (= (slen p) 1) (= (strContains (repeat s n) p) (and (> n 0) (strContains s p)))) :pattern ((strContains (repeat s n) p))))"},
	{"contains-substr", []string{"substr", "strContains", "slen"}, "(forall ((s Str) (i Int) (j Int) (p Str)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (strContains (substr s i j) p)) (strContains s p)) :pattern ((strContains (substr s i j) p))))"},
	{"contains-empty", []string{"strContains", "slen"}, "(forall ((s Str) (p Str)) (! (=> (< (slen s) (slen p)) (not (strContains s p))) :pattern ((strContains s p))))"},
	{"contains-runeSub", []string{"runeSub", "strContains", "slen", "validUTF8"}, "(forall ((s Str) (i Int) (j Int) (p Str)) (! (=> (and (= (slen p) 1) (validUTF8 p) (strContains (runeSub s i j) p)) (strContains s p)) :pattern ((strContains (runeSub s i j) p))))"},
	{"contains-rune", []string{"runeStr", "runesOf", "runeCount", "strContains", "slen", "validUTF8"}, "(forall ((s Str) (i Int) (p Str)) (! (=> (and (= (slen p) 1) (validUTF8 p) (<= 0 i) (< i (runeCount s)) (strContains (runeStr (select (runesOf s) i)) p)) (strContains s p)) :pattern ((strContains (runeStr (select (runesOf s) i)) p))))"},
	{"bytestr", []string{"byteStr", "slen"}, "(forall ((b Int)) (! (= (slen (byteStr b)) 1) :pattern ((byteStr b))))"},
	{"bytestr-at", []string{"byteStr", "sat"}, "(forall ((b Int)) (! (= (sat (byteStr b) 0) b) :pattern ((byteStr b))))"},
	{"sindex", []string{"strIndex", "slen"}, "(forall ((s Str) (p Str)) (! (and (>= (strIndex s p) (- 1)) (=> (>= (strIndex s p) 0) (<= (+ (strIndex s p) (slen p)) (slen s)))) :pattern ((strIndex s p))))"},
	{"sindex-contains", []string{"strIndex", "strContains"}, "(forall ((s Str) (p Str)) (! (= (>= (strIndex s p) 0) (strContains s p)) :pattern ((strIndex s p))))"},
	{"sindexbyte", []string{"strIndexByte", "slen"}, "(forall ((s Str) (p Int)) (! (and (>= (strIndexByte s p) (- 1)) (< (strIndexByte s p) (+ 0 (slen s) (ite (= (slen s) 0) 1 0)))) :pattern ((strIndexByte s p))))"},
	{"sindexbyte-at", []string{"strIndexByte", "sat"}, "(forall ((s Str) (p Int)) (! (=> (>= (strIndexByte s p) 0) (= (sat s (strIndexByte s p)) p)) :pattern ((strIndexByte s p))))"},
	{"strcount", []string{"strCount"}, "(forall ((s Str) (p Str)) (! (>= (strCount s p) 0) :pattern ((strCount s p))))"},
}

// parametric families
func familyAxioms(f *FunDecl, has func(string) bool) []string {
	n := smtSym(f.name)
	switch {
	case strings.HasPrefix(f.name, "at!"):
		a := f.args[0]
		out := []string{
			fmt.Sprintf("(forall ((a %s) (o Int) (i Int)) (! (= (%s a o i) (select a (+ o i))) :pattern ((%s a o i))))", a, n, n),
		}
		_, v := arrSorts(a)
		out = append(out, fmt.Sprintf("(forall ((a %s) (p Int) (v %s) (o Int) (i Int)) (! (= (%s (store a p v) o i) (ite (= p (+ o i)) v (%s a o i))) :pattern ((%s (store a p v) o i))))", a, v, n, n, n))
		return out
	case strings.HasPrefix(f.name, "shift!"):
		a := f.args[0]
		return []string{fmt.Sprintf("(forall ((a %s) (o Int) (i Int)) (! (= (select (%s a o) i) (select a (+ o i))) :pattern ((select (%s a o) i))))", a, n, n)}
	case strings.HasPrefix(f.name, "arrcopy!"):
		a := f.args[0]
		out := []string{fmt.Sprintf("(forall ((d %s) (do Int) (s %s) (so Int) (n Int) (j Int)) (! (= (select (%s d do s so n) j) (ite (and (<= do j) (< j (+ do n))) (select s (+ so (- j do))) (select d j))) :pattern ((select (%s d do s so n) j))))", a, a, n, n)}
		at := "at!" + a
		if has(at) {
			out[0] = fmt.Sprintf("(forall ((d %s) (do Int) (s %s) (so Int) (n Int) (j Int)) (! (= (select (%s d do s so n) j) (ite (and (<= do j) (< j (+ do n))) (%s s so (- j do)) (select d j))) :pattern ((select (%s d do s so n) j))))", a, a, n, smtSym(at), n)
		}
		// the same fact read from the source
		out = append(out, fmt.Sprintf("(forall ((d %s) (do Int) (s %s) (n Int) (j Int)) (! (=> (and (<= 0 j) (< j n)) (= (select (%s d do s 0 n) (+ do j)) (select s j))) :pattern ((%s d do s 0 n) (select s j))))", a, a, n, n))
		if has(at) {
			q := smtSym(at)
			out = append(out, fmt.Sprintf("(forall ((d %s) (do Int) (s %s) (so Int) (n Int) (j Int)) (! (=> (and (<= 0 j) (< j n)) (= (select (%s d do s so n) (+ do j)) (%s s so j))) :pattern ((%s d do s so n) (%s s so j))))", a, a, n, q, n, q))
			out = append(out, fmt.Sprintf("(forall ((d %s) (do Int) (s %s) (so Int) (n Int) (o Int) (j Int)) (! (= (%s (%s d do s so n) o j) (ite (and (<= do (+ o j)) (< (+ o j) (+ do n))) (%s s so (- (+ o j) do)) (%s d o j))) :pattern ((%s (%s d do s so n) o j))))", a, a, q, n, q, q, q, n))
		}
		return out
	case strings.HasPrefix(f.name, "box!"):
		u := "unbox!" + f.args[0]
		if has(u) {
			return []string{fmt.Sprintf("(forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x))))", f.args[0], smtSym(u), n, n)}
		}
		// injectivity
		return []string{fmt.Sprintf("(forall ((x %s) (y %s)) (! (=> (= (%s x) (%s y)) (= x y)) :pattern ((%s x) (%s y))))", f.args[0], f.args[0], n, n, n, n)}
	}
	return nil
}

// ---- emission ----
type emitter struct {
	b      bytes.Buffer
	seen   map[*Term]bool // scanned for declarations
	refs   map[*Term]int
	defd   map[*Term]bool
	consts map[string]*Term
	funsU  map[string]bool
	lits   map[string]*Term
	sorts  map[string]bool
	order  []string
	consO  []*Term
	memo   map[*Term]string
	noCA   bool // constant arrays through an axiom (cvc5 accepts only value elements)
	caN    int
}

func newEmitter() *emitter {
	return &emitter{seen: map[*Term]bool{}, refs: map[*Term]int{}, defd: map[*Term]bool{}, consts: map[string]*Term{}, funsU: map[string]bool{}, lits: map[string]*Term{}, sorts: map[string]bool{}, memo: map[*Term]string{}}
}
func (e *emitter) scan(t *Term) {
	e.refs[t]++
	if e.seen[t] {
		return
	}
	e.seen[t] = true
	e.useSort(t.sort)
	switch t.op {
	case "const":
		if _, ok := e.consts[t.name]; !ok {
			e.consts[t.name] = t
			e.consO = append(e.consO, t)
		}
	case "lit":
		e.lits[t.s] = t
	case "app":
		if !e.funsU[t.name] {
			e.funsU[t.name] = true
			e.order = append(e.order, t.name)
			d := funs[t.name]
			for _, a := range d.args {
				e.useSort(a)
			}
			e.useSort(d.ret)
		}
	}
	for _, a := range t.args {
		e.scan(a)
	}
	for _, v := range t.vars {
		e.useSort(v.sort)
	}
	for _, p := range t.pats {
		for _, a := range p {
			e.scan(a)
		}
	}
}
func (e *emitter) useSort(s string) {
	if e.sorts[s] {
		return
	}
	e.sorts[s] = true
	if strings.HasPrefix(s, "(Array ") {
		k, v := arrSorts(s)
		e.useSort(k)
		e.useSort(v)
		return
	}
	if d := dts[s]; d != nil {
		for _, f := range d.sorts {
			e.useSort(f)
		}
	}
}

func atomic(t *Term) bool {
	return len(t.args) == 0 || t.op == "get" && len(t.args[0].args) == 0
}

// expr renders t, emitting definitions for shared closed subterms first
func (e *emitter) expr(t *Term) string {
	if s, ok := e.memo[t]; ok {
		return s
	}
	var s string
	if e.noCA && t.op == "constarr" && !t.bound && t.args[0].op != "int" && t.args[0].op != "bool" {
		v := e.expr(t.args[0])
		s = fmt.Sprintf("ca!%d", t.id)
		k, _ := arrSorts(t.sort)
		fmt.Fprintf(&e.b, "(declare-const %s %s)\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", s, t.sort, k, s, v, s)
		e.memo[t] = s
		return s
	}
	if t.bound || t.op == "forall" || t.op == "exists" {
		s = t.render(e.expr)
	} else {
		s = t.render(e.expr)
		if !atomic(t) && e.refs[t] > 1 && len(s) > 24 {
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&e.b, "(define-fun %s () %s %s)\n", n, t.sort, s)
			s = n
		}
	}
	e.memo[t] = s
	return s
}

func (e *emitter) prelude(axTerms []*Term) []*Term {
	// close over user axioms
	var used []*Term
	done := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for _, a := range axTerms {
			if done[a] {
				continue
			}
			fs := map[string]bool{}
			appNames(a, fs, map[*Term]bool{})
			hit := len(fs) == 0
			for f := range fs {
				if strings.HasPrefix(f, "lg!") && e.funsU[f] {
					hit = true
				}
			}
			if !hit {
				all := true
				for f := range fs {
					if strings.HasPrefix(f, "lg!") || !e.funsU[f] {
						all = false
					}
				}
				hit = all
			}
			if hit {
				done[a] = true
				ch = true
				used = append(used, a)
				e.scan(a)
			}
		}
	}
	if e.funsU["sjoin"] && (e.funsU["split.n"] || e.funsU["split.a"]) {
		e.scan(App("strContains", "Bool", Const("str!any", "Str"), Const("str!any", "Str")))
		e.scan(App("split.a", "(Array Int Str)", Const("str!any", "Str"), Const("str!any", "Str")))
		e.scan(App("slen", "Int", Const("str!any", "Str")))
	}
	if e.funsU["strContains"] && (e.funsU["runeSub"] || e.funsU["runesOf"]) {
		e.scan(App("validUTF8", "Bool", Const("str!any", "Str")))
		e.scan(App("runeCount", "Int", Const("str!any", "Str")))
	}
	if e.funsU["strContains"] && !e.funsU["slen"] {
		e.scan(App("slen", "Int", Const("str!any", "Str")))
	}
	if e.funsU["runeSub"] && !e.funsU["slen"] {
		e.scan(App("slen", "Int", Const("str!any", "Str")))
	}
	var p bytes.Buffer
	p.WriteString("(declare-sort Str 0)\n(declare-sort Val 0)\n(declare-sort TVal 0)\n")
	decl := map[string]bool{"Int": true, "Bool": true, "Real": true, "Str": true, "Val": true, "TVal": true}
	// needed symbols for literal facts
	var ss []string
	for s := range e.sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		if decl[s] || strings.HasPrefix(s, "(") || dts[s] != nil {
			continue
		}
		fmt.Fprintf(&p, "(declare-sort %s 0)\n", smtSym(s))
	}
	for _, s := range dtOrder {
		if !e.sorts[s] && s != "Slice" && s != "Iface" {
			continue
		}
		d := dts[s]
		fmt.Fprintf(&p, "(declare-datatypes ((%s 0)) (((%s", s, smtSym(d.ctor))
		for i, f := range d.fields {
			fmt.Fprintf(&p, " (%s %s)", smtSym(f), d.sorts[i])
		}
		p.WriteString("))))\n")
	}
	empty := StrLit("")
	if e.funsU["slen"] {
		e.lits[""] = empty
	}
	var ls []*Term
	for _, l := range e.lits {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].s < ls[j].s })
	var names []string
	for _, l := range ls {
		fmt.Fprintf(&p, "(declare-const %s Str) ; %q\n", litName(l), l.s)
		names = append(names, litName(l))
	}
	for _, c := range e.consO {
		fmt.Fprintf(&p, "(declare-const %s %s)\n", smtSym(c.name), c.sort)
	}
	for _, f := range e.order {
		d := funs[f]
		fmt.Fprintf(&p, "(declare-fun %s (%s) %s)\n", smtSym(f), strings.Join(d.args, " "), d.ret)
	}
	if len(names) > 1 {
		fmt.Fprintf(&p, "(assert (distinct %s))\n", strings.Join(names, " "))
	}
	for _, l := range ls {
		n := litName(l)
		if e.funsU["slen"] {
			fmt.Fprintf(&p, "(assert (= (slen %s) %d))\n", n, len(l.s))
		}
		if e.funsU["cat"] && len(ls) <= 100 { // the literals this one is put together from
			for i := 1; i < len(l.s); i++ {
				if a, b := e.lits[l.s[:i]], e.lits[l.s[i:]]; a != nil && b != nil {
					fmt.Fprintf(&p, "(assert (= (cat %s %s) %s))\n", litName(a), litName(b), n)
				}
			}
		}
		if e.funsU["sat"] && len(l.s) <= 12 {
			for i := 0; i < len(l.s); i++ {
				fmt.Fprintf(&p, "(assert (= (sat %s %d) %d))\n", n, i, l.s[i])
			}
		}
		if e.funsU["validUTF8"] && utf8.ValidString(l.s) {
			fmt.Fprintf(&p, "(assert (validUTF8 %s))\n", n)
		}
		if e.funsU["runesOf"] && len(l.s) <= 12 {
			for i, r := range []rune(l.s) {
				fmt.Fprintf(&p, "(assert (= (select (runesOf %s) %d) %d))\n", n, i, r)
			}
		}
		for _, wf := range []string{"swidth", "uwidth"} {
			if e.funsU[wf] {
				if w, ok := asciiWidth(l.s); ok {
					fmt.Fprintf(&p, "(assert (= (%s %s) %d))\n", wf, n, w)
				}
			}
		}
		if e.funsU["strContains"] && len(ls) <= 100 {
			for _, q := range ls {
				if len(q.s) == 1 && len(l.s) > 0 {
					if strings.Contains(l.s, q.s) {
						fmt.Fprintf(&p, "(assert (strContains %s %s))\n", n, litName(q))
					} else {
						fmt.Fprintf(&p, "(assert (not (strContains %s %s)))\n", n, litName(q))
					}
				}
			}
		}
		if e.funsU["strContains"] && e.funsU["itoa"] && len(l.s) == 1 && !strings.Contains("-0123456789", l.s) {
			fmt.Fprintf(&p, "(assert (forall ((n Int)) (! (not (strContains (itoa n) %s)) :pattern ((strContains (itoa n) %s)))))\n", n, n)
		}
		if e.funsU["glen"] {
			if w, ok := asciiWidth(l.s); ok {
				fmt.Fprintf(&p, "(assert (= (glen %s) %d))\n", n, w)
			}
		}
		if e.funsU["runeCount"] {
			fmt.Fprintf(&p, "(assert (= (runeCount %s) %d))\n", n, len([]rune(l.s)))
		}
		if e.funsU["repeat"] {
			if e.funsU["slen"] {
				fmt.Fprintf(&p, "(assert (forall ((n Int)) (! (= (slen (repeat %s n)) (ite (> n 0) (* %d n) 0)) :pattern ((repeat %s n)))))\n", n, len(l.s), n)
			}
			if w, ok := asciiWidth(l.s); ok && e.funsU["swidth"] {
				fmt.Fprintf(&p, "(assert (forall ((n Int)) (! (= (swidth (repeat %s n)) (ite (> n 0) (* %d n) 0)) :pattern ((repeat %s n)))))\n", n, w, n)
			}
		}
	}
	if e.funsU["slen"] {
		fmt.Fprintf(&p, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s %s)) :pattern ((slen s)))))\n", litName(empty))
	}
	for _, a := range theory {
		ok := a.text != ""
		for _, n := range a.need {
			if !e.funsU[n] {
				ok = false
			}
		}
		if ok {
			theoryMu.Lock()
			theorySeen[a.name] = true
			theoryMu.Unlock()
			fmt.Fprintf(&p, "(assert %s)\n", a.text)
		}
	}
	for _, f := range e.order {
		for _, t := range familyAxioms(funs[f], func(s string) bool { return e.funsU[s] }) {
			fmt.Fprintf(&p, "(assert %s)\n", t)
		}
	}
	p.Write(e.b.Bytes())
	e.b = p
	for _, a := range used {
		s := e.expr(a)
		fmt.Fprintf(&e.b, "(assert %s)\n", s)
	}
	return used
}
var theoryMu sync.Mutex
var theorySeen = map[string]bool{}

func usedTheory() []string {
	theoryMu.Lock()
	defer theoryMu.Unlock()
	return sortedBoolKeys(theorySeen)
}
func asciiWidth(s string) (int, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return 0, false
		}
	}
	return len(s), true
}
func appNames(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "app" {
		out[t.name] = true
	}
	for _, a := range t.args {
		appNames(a, out, seen)
	}
}

// deadHyp: the hypothesis belongs to a dropped loop-invariant candidate
func deadHyp(h *Term, dead map[string]bool) bool {
	if h.op == "=>" {
		if h.args[0].op == "const" && dead[h.args[0].name] {
			return true
		}
		if h.args[0].op == "and" {
			for _, a := range h.args[0].args {
				if a.op == "const" && dead[a.name] {
					return true
				}
			}
		}
	}
	return false
}

// batch script: hypotheses asserted progressively, each goal between push and pop
func batchScript(x *Exec, obs []*Oblig, dead, alive map[string]bool, axTerms []*Term, head string) string {
	e := newEmitter()
	e.noCA = head == "cvc5"
	if e.noCA {
		head = ""
	}
	max := 0
	for _, o := range obs {
		if o.nh > max {
			max = o.nh
		}
		e.scan(o.pc)
		e.scan(o.goal)
	}
	for _, h := range x.hyps[:max] {
		if !deadHyp(h, dead) {
			e.scan(h)
		}
	}
	for s := range alive {
		t := Const(s, "Bool")
		e.scan(t)
	}
	e.b.Reset()
	e.prelude(axTerms)
	for _, s := range sortedBoolKeys(alive) {
		fmt.Fprintf(&e.b, "(assert %s)\n", smtSym(s))
	}
	at := 0
	for k, o := range obs {
		for ; at < o.nh; at++ {
			h := x.hyps[at]
			if deadHyp(h, dead) {
				continue
			}
			s := e.expr(h)
			fmt.Fprintf(&e.b, "(assert %s)\n", s)
		}
		pc := e.expr(o.pc)
		g := e.expr(o.goal)
		if k == 0 && len(obs) <= 16 {
			e.shifts()
		}
		fmt.Fprintf(&e.b, "(push)\n(assert %s)\n(assert (not %s))\n(check-sat)\n(pop)\n", pc, g)
	}
	return head + e.b.String()
}

// shifts: element i of the window at o+c is element i+c of the window at o, for the offsets
// o+c that occur (so that facts about a slice are found for its tails)
func (e *emitter) shifts() {
	var ts []*Term
	done := map[string]bool{}
	for t := range e.seen {
		if t.op == "app" && strings.HasPrefix(t.name, "at!") && t.args[1].op == "+" && !t.args[1].bound {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		off := t.args[1]
		var base []*Term
		var c *Term
		for _, a := range off.args {
			if a.op == "int" && c == nil {
				c = a
			} else {
				base = append(base, a)
			}
		}
		if c == nil || len(base) == 0 {
			continue
		}
		o := e.expr(off)
		k := t.name + " " + o
		if done[k] {
			continue
		}
		done[k] = true
		n := smtSym(t.name)
		fmt.Fprintf(&e.b, "(assert (forall ((a %s) (i Int)) (! (= (%s a %s i) (%s a %s (+ i %s))) :pattern ((%s a %s i)))))\n", t.args[0].sort, n, o, n, e.expr(Add(base...)), e.expr(c), n, o)
	}
}
func sortedBoolKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// coi keeps the hypotheses connected to the goal
func singleScript(x *Exec, o *Oblig, dead, alive map[string]bool, axTerms []*Term) string {
	return batchScript(x, []*Oblig{o}, dead, alive, axTerms, "")
}

var cpuSem = make(chan struct{}, 8)
var solverTime struct {
	sync.Mutex
	s map[string]float64
	n map[string]int
}

func runSolver(name string, args []string, script string, to time.Duration) string {
	return runSolverCtx(context.Background(), name, args, script, to)
}
func runSolverCtx(pc context.Context, name string, args []string, script string, to time.Duration) string {
	select {
	case cpuSem <- struct{}{}:
	case <-pc.Done():
		return ""
	}
	defer func() { <-cpuSem }()
	if left := time.Until(stopAt); left < to {
		if left < 50*time.Millisecond {
			return ""
		}
		to = left
	}
	ctx, cancel := context.WithTimeout(pc, to)
	defer cancel()
	t0 := time.Now()
	c := exec.CommandContext(ctx, name, args...)
	c.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	c.Run()
	solverTime.Lock()
	if solverTime.s == nil {
		solverTime.s = map[string]float64{}
		solverTime.n = map[string]int{}
	}
	solverTime.s[name] += time.Since(t0).Seconds()
	solverTime.n[name]++
	solverTime.Unlock()
	return out.String()
}

const z3head = "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n"

func answers(out string) []string {
	var as []string
	bad := ""
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			as = append(as, l)
		} else if strings.HasPrefix(l, "(error") {
			bad = l
		}
	}
	if bad != "" { // the answers no longer line up with the questions: none counts
		for i := range as {
			as[i] = bad
		}
		as = append(as, bad)
	}
	return as
}

type result struct {
	ok     bool
	by     string
	status string
}

var dumpOnce sync.Once

func dumpErr(sc, msg string) {
	dumpOnce.Do(func() {
		fmt.Fprintln(stderr, "solver error:", msg)
		writeFile(scratch("solver-error.smt2"), sc)
		if d := os.Getenv("GOVDUMPC"); d != "" {
			writeFile(d+"/solver-error.smt2", sc)
		}
	})
}

// portfolio tries several provers on one obligation
func portfolio(x *Exec, o *Oblig, dead, alive map[string]bool, ax []*Term, to time.Duration) result {
	genMu.Lock()
	sc := singleScript(x, o, dead, alive, ax)
	sc5 := batchScript(x, []*Oblig{o}, dead, alive, ax, "cvc5")
	o2 := *o
	o2.goal = underHyp(o.pc, o.goal)
	scH := ""
	if o2.goal == True {
		genMu.Unlock()
		return result{ok: true, by: "rewriting", status: "unsat"}
	}
	if o2.goal != o.goal {
		scH = singleScript(x, &o2, dead, alive, ax)
		if d := os.Getenv("GOVDUMPH"); d != "" {
			os.WriteFile(d+strings.ReplaceAll(o.name, "/", "_"), []byte(scH), 0o644)
		}
	}
	genMu.Unlock()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct{ by, a string }
	ch := make(chan ans, 8)
	ms := int(to / time.Millisecond)
	runs := []struct {
		by, bin string
		args    []string
		head    string
		hyp     bool
	}{
		{"z3-5.3 (E-matching)", "z3-new", []string{"-in", fmt.Sprintf("-t:%d", ms)}, z3head, false},
		{"z3-5.3", "z3-new", []string{"-in", fmt.Sprintf("-t:%d", ms)}, "", false},
		{"cvc5-1.1.2", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic ALL)\n", false},
		{"z3-4.8.12", "z3", []string{"-in", fmt.Sprintf("-t:%d", ms)}, z3head, false},
	}
	if scH != "" {
		runs = append(runs, runs[0])
		runs[len(runs)-1].hyp = true
		runs[len(runs)-1].by = "z3-5.3 (goal under its premises)"
	}
	for _, r := range runs {
		r := r
		go func() {
			s := sc
			if r.hyp {
				s = scH
			}
			if r.bin == "cvc5" {
				s = strings.NewReplacer("(push)", "", "(pop)", "").Replace(sc5)
			}
			out := runSolverCtx(ctx, r.bin, r.args, r.head+s, to+2*time.Second)
			a := "timeout"
			if as := answers(out); len(as) > 0 {
				a = as[0]
			}
			ch <- ans{r.by, a}
		}()
	}
	st := []string{}
	for range runs {
		a := <-ch
		if a.a == "unsat" {
			return result{ok: true, by: a.by, status: "unsat"}
		}
		st = append(st, a.by+": "+a.a)
	}
	sort.Strings(st)
	return result{status: strings.Join(st, "; ")}
}
