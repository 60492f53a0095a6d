------------------------------ MODULE Sections ------------------------------
(* The division of a text into sections (specfile.sections).                 *)
(* A section is [pre: it is the preamble (no header line), name, delim, sep, *)
(* otext: option text as written, opts: options, touched: options edited,    *)
(* inline: content on the header line, data: lines].                         *)
EXTENDS Conditions, Options, Names

SectionOpts(n) == CASE n \in {"description"} -> "n:l:"
                    [] n = "files" -> "n:f:"
                    [] n \in {"package", "sepolicy"} -> "n:"
                    [] n \in Scripts -> "n:f:p:P:eq"
                    [] OTHER -> ""

\* does a line start a section?
IsHeader(s) ==
  LET e == FindAny(s, 2, SpaceC)
  IN StartsWith(s, "%") /\ Lower(Sub(s, 2, e - 1)) \in SectionNames
     /\ (e > Len(s) \/ LastChar(s) # "\\")
Headers(lines) ==
  LET body == BodyLines(ParseDefs(lines, AllValid(lines)))
      hs == Force([i \in 1..Len(lines) |-> i \notin body /\ StartsWith(lines[i], "%") /\ IsHeader(lines[i])])
  IN Filt([i \in 1..Len(lines) |-> i], LAMBDA i : hs[i])

OptsOf(name, text) == [toks |-> Tokenize(text).toks, optstring |-> SectionOpts(Lower(name)), defaults |-> <<>>]
\* header line (without the %) -> section without data
SplitHeader(T, h) ==
  LET last == SpanBack(h, Len(h), Word \cup {"x"} \cup ({SubSeq(h, k, k) : k \in 1..Len(h)} \ SpaceC)) + 1
      tok == From(h, last)                    \* the last token
      ws == SpanBack(h, last - 1, SpaceC)     \* end of what is before the white space before it
      cut == last > 1 /\ StartsWith(tok, "%") /\ StartsWith(ExpandIn(T, tok), "\n")
      r == IF cut THEN UpTo(h, ws) ELSE h
      e == FindAny(r, 1, SpaceC)
      f == SpanEnd(r, e, SpaceC)
      name == UpTo(r, e - 1)
  IN [pre |-> FALSE, name |-> name, delim |-> Sub(r, e, f - 1), sep |-> IF cut THEN Sub(h, ws + 1, last - 1) ELSE "\n",
      otext |-> From(r, f), opts |-> OptsOf(name, From(r, f)), touched |-> FALSE,
      inline |-> IF cut THEN <<tok>> ELSE <<>>, data |-> IF cut THEN <<tok>> ELSE <<>>]
Preamble(lines) == [pre |-> TRUE, name |-> "package", delim |-> "", sep |-> "\n", otext |-> "",
                    opts |-> OptsOf("package", ""), touched |-> FALSE, inline |-> <<>>, data |-> lines]
ParseSecs(lines, T) ==
  LET hs == Headers(lines)
      n == Len(hs)
      end(k) == IF k < n THEN hs[k + 1] - 1 ELSE Len(lines)
  IN <<Preamble(SubSeq(lines, 1, IF n = 0 THEN Len(lines) ELSE hs[1] - 1))>>
     \o Force([k \in 1..n |-> LET s == SplitHeader(T, From(lines[hs[k]], 2))
                              IN [s EXCEPT !.data = @ \o SubSeq(lines, hs[k] + 1, end(k))]])

OptText(s) == IF s.touched THEN Render(s.opts.toks) ELSE s.otext
Delim(s) == IF s.delim = "" /\ OptText(s) # "" THEN " " ELSE s.delim
SecId(s) == s.name \o Delim(s) \o OptText(s)
NormId(s) == RStrip(Lower(s.name) \o Delim(s) \o OptText(s))
IsScript(s) == Lower(s.name) \in Scripts \cup SimpleScripts
RawSec(s) ==
  IF s.pre THEN s.data
  \* content on the header line stays there as long as it is the original
  ELSE IF s.sep = "\n" \/ s.data = <<>> \/ SubSeq(s.data, 1, 1) # s.inline THEN <<"%" \o SecId(s)>> \o s.data
  ELSE <<"%" \o SecId(s) \o s.sep \o s.data[1]>> \o SubSeq(s.data, 2, Len(s.data))
RawSecs(v) == Flat([i \in 1..Len(v) |-> RawSec(v[i])])

NormalizeId(id) == LET e == FindAny(id, 1, SpaceC) IN Lower(UpTo(id, e - 1)) \o From(id, e)
FindSec(v, id) == FirstIdx(v, LAMBDA s : NormId(s) = NormalizeId(id))
NewSec(d) == [pre |-> FALSE, name |-> d.name, delim |-> d.delim, sep |-> "\n", otext |-> d.opt,
              opts |-> OptsOf(d.name, d.opt), touched |-> FALSE, inline |-> <<>>, data |-> d.data]
=============================================================================
