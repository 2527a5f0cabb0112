------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* Who a REST server serves.  A server is protected when it is given a key *)
(* and a certificate: then it is spoken to with TLS only, and when clients *)
(* are to be verified, only by those that present a valid certificate from *)
(* an authority that the server was told to trust.                         *)
(*                                                                         *)
(* A file of keys and certificates is [pem |-> items], where an item is    *)
(* "key:NAME" or "cert:NAME" or something else, which is a comment.  The   *)
(* authorities are a and b; their clients X-client, X-via (signed by an    *)
(* intermediate of X that comes with the certificate), X-expired, X-server *)
(* (not a certificate for clients), and self, which is signed by itself.   *)
(***************************************************************************)
EXTENDS Files
Items(fs, p, kind) ==
  IF IsFile(fs, p) /\ "pem" \in DOMAIN fs[p]
  THEN LET xs == SelectSeq(fs[p].pem, LAMBDA x : HasPrefix(x, kind)) IN [j \in 1..Len(xs) |-> From(xs[j], Len(kind) + 1)]
  ELSE <<>>
RootedAt(p) == IF IsAbs(p) THEN p ELSE Join("/R", p)
Unprotected == [ok |-> TRUE, tls |-> FALSE, cert |-> "", verify |-> FALSE, cas |-> {}]
NotStarted == [Unprotected EXCEPT !.ok = FALSE]
\* t: the key, certificate and authorities, each "" when not given, and whether clients are to be verified
AccessOf(fs, t) ==
  IF t.key = "" \/ t.cert = "" THEN Unprotected
  ELSE LET cs == Items(fs, RootedAt(t.cert), "cert:")
           ks == Items(fs, RootedAt(t.key), "key:")
           as == IF t.ca = "" THEN <<>> ELSE Items(fs, RootedAt(t.ca), "cert:")
       IN IF Len(cs) = 0 \/ Len(ks) = 0 \/ (t.ca # "" /\ Len(as) = 0) THEN NotStarted
          ELSE IF cs[1] # ks[1] THEN NotStarted
          ELSE [ok |-> TRUE, tls |-> TRUE, cert |-> cs[1], verify |-> t.verify, cas |-> {as[j] : j \in 1..Len(as)}]
\* the authority that vouches for a client
Authority(cert) == CASE cert \in {"a-client", "a-via"} -> "a" [] cert \in {"b-client", "b-via"} -> "b" [] OTHER -> ""
\* certificates that may be trusted themselves
ForClients == {"a", "b", "a-client", "b-client", "a-via", "b-via", "self"}
Trusted(a, cert) == Authority(cert) \in a.cas \/ (cert \in ForClients /\ cert \in a.cas)
Admits(a, client) ==
  IF ~a.tls THEN ~client.tls
  ELSE client.tls /\ client.expects = a.cert /\ (a.verify => Trusted(a, client.cert))
Anybody == [tls |-> FALSE, cert |-> "", expects |-> ""]
=============================================================================
