-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* Reading of the command line of acetone_generate.  The state: the words  *)
(* still to be read, the settings of the generation read so far, which     *)
(* required options were met.  An option is written --name value or        *)
(* --name=value, or shortened to a prefix which no other option has; the   *)
(* last of two equal options counts; whatever else is an error, and then   *)
(* nothing is generated.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* kind: text, nat (a number), bool (a word), flag (no value)
Options == [ x \in {"--model", "--function", "--output", "--dataset-size", "--dataset", "--normalize", "--conv", "--optimization",
                    "--target", "--target_page_size", "--bin_dataset", "--verbose"} |->
             CASE x \in {"--model", "--function", "--output", "--dataset", "--conv", "--target"} -> "text"
               [] x \in {"--dataset-size", "--target_page_size"} -> "nat"
               [] x \in {"--optimization", "--bin_dataset", "--verbose"} -> "bool"
               [] x = "--normalize" -> "flag" ]
Required == {"--model", "--function", "--output", "--dataset-size"}
Default == [ x \in DOMAIN Options |->
             CASE x = "--conv" -> "std_gemm_nn" [] x = "--target" -> "generic" [] x = "--target_page_size" -> "4096"
               [] Options[x] \in {"bool", "flag"} -> "False" [] OTHER -> "" ]

Starts(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
EqualSigns(w) == {i \in 1..Len(w) : SubSeq(w, i, i) = "="}
HasValue(w) == EqualSigns(w) # {}
Cut(w) == CHOOSE i \in EqualSigns(w) : \A j \in EqualSigns(w) : i <= j
Name(w) == IF HasValue(w) THEN SubSeq(w, 1, Cut(w) - 1) ELSE w
Value(w) == SubSeq(w, Cut(w) + 1, Len(w))
\* the option a word stands for, or "" (unknown or ambiguous)
Long(n) == IF n \in DOMAIN Options THEN n
           ELSE LET c == {o \in DOMAIN Options : Starts(n, o)}
                IN IF Len(n) > 2 /\ Cardinality(c) = 1 THEN CHOOSE o \in c : TRUE ELSE ""
IsOption(w) == Len(w) >= 2 /\ SubSeq(w, 1, 1) = "-"
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNat(v) == Len(v) > 0 /\ \A i \in 1..Len(v) : SubSeq(v, i, i) \in Digits
True == {"True", "true", "TRUE", "1", "yes", "on"}
False == {"False", "false", "FALSE", "0", "no", "off"}
Valid(o, v) == CASE Options[o] = "nat" -> IsNat(v) [] Options[o] = "bool" -> v \in True \cup False [] OTHER -> TRUE
Read(o, v) == IF Options[o] = "bool" THEN (IF v \in True THEN "True" ELSE "False") ELSE v

CONSTANTS WORDS, MAXLEN, VALUE
VARIABLES words, settings, met, status
vars == <<words, settings, met, status>>
Begin(ws) == words = ws /\ settings = Default /\ met = {} /\ status = "reading"
Head1 == words[1]
Fail(b) == b /\ status' = "error" /\ UNCHANGED <<words, settings, met>>
Set(o, v, k) == /\ settings' = [settings EXCEPT ![o] = v]
                /\ met' = met \cup {o} /\ words' = SubSeq(words, k + 1, Len(words)) /\ UNCHANGED status
ReadOption ==
  /\ status = "reading" /\ words # <<>>
  /\ IF ~IsOption(Head1) THEN Fail(TRUE)
     ELSE LET o == Long(Name(Head1)) IN
          IF o = "" THEN Fail(TRUE)
          ELSE IF Options[o] = "flag" THEN IF HasValue(Head1) THEN Fail(TRUE) ELSE Set(o, "True", 1)
          ELSE IF HasValue(Head1) THEN IF Valid(o, Value(Head1)) THEN Set(o, Read(o, Value(Head1)), 1) ELSE Fail(TRUE)
          ELSE IF Len(words) < 2 THEN Fail(TRUE)
          ELSE IF IsOption(words[2]) THEN Fail(TRUE)
          ELSE IF Valid(o, words[2]) THEN Set(o, IF VALUE = "word" THEN Read(o, words[2]) ELSE
                                                 IF Options[o] = "bool" THEN "True" ELSE words[2], 2)
          ELSE Fail(TRUE)
Finish == /\ status = "reading" /\ words = <<>>
          /\ status' = IF Required \subseteq met THEN "run" ELSE "error"
          /\ UNCHANGED <<words, settings, met>>
Init == \E n \in 0..MAXLEN : \E ws \in [1..n -> WORDS] :
          Begin(<<"--model", "m", "--function=f", "--out", "d", "--dataset-size", "3">> \o ws)
Next == ReadOption \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(status # "reading")
\* what isn't mentioned keeps its default
Untouched == \A o \in DOMAIN Options \ met : settings[o] = Default[o]
Mentioned == \A o \in Required : status = "run" => settings[o] # ""
\* a word for no is never taken as a yes
Refusals == status = "run" /\ settings["--bin_dataset"] = "True" => "--bin_dataset" \in met
Last == [][\A o \in DOMAIN Options : settings'[o] # settings[o] => o = Long(Name(Head1))]_vars
NoMeansNo == [][status = "reading" /\ Len(words) >= 2 /\ Long(Name(words[1])) = "--bin_dataset" /\ words[2] \in False /\ ~HasValue(words[1])
                /\ status' = "reading" => settings'["--bin_dataset"] = "False"]_vars
=============================================================================
