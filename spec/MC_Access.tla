----------------------------- MODULE MC_Access ------------------------------
(***************************************************************************)
(* P21: a REST server that is started with every combination of a key, a   *)
(* certificate, authorities and whether clients are to be verified, and    *)
(* clients of all kinds that make requests to it.                          *)
(***************************************************************************)
EXTENDS MCBase
CONSTANT Rich
VARIABLE c
\* what the files hold: the key, the first certificate, and all certificates
Pem(items, key, cert, all) == [items |-> items, key |-> key, cert |-> cert, all |-> all]
Pems == [onekey |-> Pem(<<"key:one">>, "one", "", {}), onecert |-> Pem(<<"cert:one">>, "", "one", {"one"}),
         both |-> Pem(<<"comment", "cert:one", "key:one">>, "one", "one", {"one"}),
         more |-> Pem(<<"key:one", "key:two", "cert:one", "cert:two">>, "one", "one", {"one", "two"}),
         twokey |-> Pem(<<"key:two">>, "two", "", {}), twocert |-> Pem(<<"cert:two">>, "", "two", {"two"}),
         none |-> Pem(<<"comment">>, "", "", {}),
         a |-> Pem(<<"cert:a">>, "", "a", {"a"}), ab |-> Pem(<<"comment", "cert:a", "comment", "cert:b", "key:one">>, "one", "a", {"a", "b"})]
FileOf(x) == CASE x = "" -> "" [] x \in {"onekey", "a"} -> "/R/tls/" \o x \o ".pem" [] OTHER -> "tls/" \o x \o ".pem"
Nobody == Pem(<<>>, "", "", {})
HeldBy(x) == IF x \in DOMAIN Pems THEN Pems[x] ELSE Nobody  \* "gone" isn't there, "dir" is a directory
Keys2 == {"", "onekey", "both", "more", "twokey", "none", "gone"}
Certs2 == {"", "onecert", "both", "more", "twocert", "none", "gone", "onekey", "dir"}
CAs2 == {"", "a", "ab", "none", "gone"}
Matching(k, t) == HeldBy(k).key # "" /\ HeldBy(k).key = HeldBy(t).cert
Cases == {[key |-> k, cert |-> t, ca |-> ca, verify |-> v] : k \in Keys2, t \in Certs2, ca \in CAs2, v \in BOOLEAN}
Picked == {x \in Cases : Rich \/ (x.key = "onekey" /\ x.cert = "onecert") \/ (x.ca = "a" /\ x.verify) \/ (Matching(x.key, x.cert) /\ x.ca \in {"", "ab"})
                              \/ (x.key = "" /\ x.cert = "" /\ x.ca \in {"", "gone"})}
World == [files |-> <<CfgFile(<<Mp(<< <<"name", Str("l")>>, <<"path", Str("c.yaml")>> >>)>>), F("data/c.yaml", Doc(Mp(<< <<"k", Str("v")>>, <<"bad", Str("%{nope('a')}")>> >>))), F("tls/dir.pem/x", [pem |-> <<"comment">>])>>
                    \o [j \in 1..Cardinality(DOMAIN Pems) |-> LET n == SeqOf(DOMAIN Pems)[j] IN F("tls/" \o n \o ".pem", [pem |-> Pems[n].items])],
          env |-> EmptyFn, fns |-> EmptyFn]
Start == [op |-> "serve", s |-> "s", cfg |-> "/R/hiera.yaml", tls |-> [key |-> FileOf(c.key), cert |-> FileOf(c.cert), ca |-> FileOf(c.ca), verify |-> c.verify]]
Client(tls, cert, expects) == [tls |-> tls, cert |-> cert, expects |-> expects]
Presented == <<"", "a-client", "b-client", "a-via", "b-via", "a-expired", "a-server", "self", "a-client">>
Clients == <<Client(FALSE, "", "")>> \o [j \in 1..Len(Presented) |-> Client(TRUE, Presented[j], "one")] \o <<Client(TRUE, "", "two"), Client(TRUE, "a-client", "two")>>
R(cl, k) == [op |-> "req", s |-> "s", key |-> k, client |-> cl]
Wr(n, items) == [op |-> "write", p |-> "/R/tls/" \o n \o ".pem", c |-> [pem |-> items]]
\* what the server read is what counts
Plan == <<Start>> \o [j \in 1..Len(Clients) |-> R(Clients[j], "k")]
        \o <<Wr("a", <<"cert:b">>), Wr("onecert", <<"comment">>), R(Client(TRUE, "a-client", "one"), "k"), R(Client(TRUE, "b-client", "one"), "k"), R(Client(FALSE, "", ""), "k"),
             R(Client(TRUE, "a-client", "one"), "none"), R(Client(TRUE, "", "one"), "bad")>>
Init == c \in Picked /\ MCInit(World)
\* a server that doesn't start isn't asked
Failed1 == Len(hist) > 0 /\ hist[1].out.r = "err"
Next == c' = c /\ IF Len(hist) = 0 THEN Step(Plan[1]) /\ (out'.r = "err" => Export(hist', "")) ELSE ~Failed1 /\ Follow(Plan, "")
MCView == <<c, Len(hist)>>

(***************************************************************************)
(* The property                                                            *)
(***************************************************************************)
Protected == c.key # "" /\ c.cert # ""
Starts == LastIs("serve") => (out.r = "err" <=> Protected /\ (~Matching(c.key, c.cert) \/ (c.ca # "" /\ HeldBy(c.ca).all = {})))
Req == LastOp.client
\* whoever reaches the server gets what there is
Answer == CASE LastOp.key = "k" -> "ok" [] LastOp.key = "none" -> "nf" [] OTHER -> "err"
Reached == LastIs("req") /\ out.r # "refused"
NeverInClear == Reached /\ Protected => Req.tls /\ Req.expects = HeldBy(c.cert).cert
VerifiedOnly == Reached /\ Protected /\ c.verify => \/ Req.cert \in {"a-client", "a-via"} /\ "a" \in HeldBy(c.ca).all
                                                    \/ Req.cert \in {"b-client", "b-via"} /\ "b" \in HeldBy(c.ca).all
OthersServed ==
  LastIs("req") =>
    \/ out.r = "refused" /\ IF Protected THEN ~Req.tls \/ Req.expects # HeldBy(c.cert).cert \/ c.verify ELSE Req.tls
    \/ out.r = Answer
TrustedServed == LastIs("req") /\ Protected /\ HeldBy(c.ca).all = {"a", "b"} /\ Req.tls /\ Req.expects = HeldBy(c.cert).cert /\ Req.cert \in {"a-client", "b-via"} => out.r = Answer
=============================================================================
