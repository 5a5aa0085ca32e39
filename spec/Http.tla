-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* blogc-runserver: what it answers to a request, given a tree of files.   *)
(*                                                                         *)
(* A tree is a sequence of <<path, node>>, where a path is the sequence of *)
(* its components (from the root of the file system) and a node is         *)
(* [k: "file", "dir" or "link", d: the content or the target, open: can be *)
(* read].  The root exists always.                                         *)
(***************************************************************************)
EXTENDS Text

Slash == 47
Node(tree, p) == IF p = <<>> THEN [k |-> "dir", d |-> <<>>, open |-> TRUE] ELSE Value(tree, p)
Has(tree, p) == p = <<>> \/ Defined(tree, p)

(* ---- resolving a path: walks over components, following links; at is the
   place where the walk is (never a link), n the links that may be followed *)
Bad(w) == [st |-> w, at |-> <<>>]
RECURSIVE Walk(_, _, _, _)
Walk(tree, at, segs, n) ==
    IF segs = <<>> THEN [st |-> "ok", at |-> at]
    ELSE IF Node(tree, at).k # "dir" THEN Bad("missing")
    ELSE LET s == Head(segs) IN
      IF s = <<>> \/ s = T(".") THEN Walk(tree, at, Tail(segs), n)
      ELSE IF s = T("..") THEN Walk(tree, IF at = <<>> THEN at ELSE Front(at), Tail(segs), n)
      ELSE IF Len(s) > 255 THEN Bad("missing")
      ELSE IF ~Node(tree, at).open THEN Bad("denied")
      ELSE IF ~Has(tree, Append(at, s)) THEN Bad("missing")
      ELSE LET x == Node(tree, Append(at, s)) IN
        IF x.k # "link" THEN Walk(tree, Append(at, s), Tail(segs), n)
        ELSE IF n = 0 THEN Bad("loop")
        ELSE Walk(tree, IF StartsWith(x.d, <<Slash>>) THEN <<>> ELSE at, Split(x.d, Slash) \o Tail(segs), n - 1)
Links == 12
Resolve(tree, segs) == Walk(tree, <<>>, segs, Links)
Inside(root, p) == StartsWith(p, root)

(* ---- requests *)
HexVal(c) == CASE c \in Digit -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
(* (esc: the characters of an escape seen so far) *)
DecodeStep(a, c) ==
    IF a.esc = <<>> THEN
        IF c = 37 THEN [a EXCEPT !.esc = <<c>>]
        ELSE [a EXCEPT !.out = Append(@, IF c = 43 THEN 32 ELSE c)]
    ELSE IF HexVal(c) < 0 THEN
        (* no escape after all; this character may start another one *)
        IF c = 37 THEN [out |-> a.out \o a.esc, esc |-> <<c>>]
        ELSE [out |-> Append(a.out \o a.esc, IF c = 43 THEN 32 ELSE c), esc |-> <<>>]
    ELSE IF Len(a.esc) = 1 THEN [a EXCEPT !.esc = Append(@, c)]
    ELSE [out |-> Append(a.out, HexVal(a.esc[2]) * 16 + HexVal(c)), esc |-> <<>>]
Decode(s) == LET r == FoldLeft(DecodeStep, [out |-> <<>>, esc |-> <<>>], s) IN r.out \o r.esc

(* the line: up to the first line ending (or NUL) *)
First(s, C) == LET i == SelectInSeq(s, LAMBDA c : c \in C) IN IF i = 0 THEN Len(s) + 1 ELSE i
RequestLine(r) == SubSeq(r, 1, First(r, {0, 10, 13}) - 1)
(* method, address and the rest, at the first two blanks *)
Pieces(line) ==
    LET a == First(line, {32})
        rest == SubSeq(line, a + 1, Len(line))
        b == First(rest, {32})
    IN IF a > Len(line) \/ b > Len(rest) THEN <<>>
       ELSE <<SubSeq(line, 1, a - 1), SubSeq(rest, 1, b - 1), SubSeq(rest, b + 1, Len(rest))>>

(* content types by extension, and the names of indexes in their order *)
Types == <<
    <<T("html"), T("text/html")>>,
    <<T("htm"), T("text/html")>>,
    <<T("shtml"), T("text/html")>>,
    <<T("xml"), T("text/xml")>>,
    <<T("txt"), T("text/plain")>>,
    <<T("xhtml"), T("application/xhtml+xml")>>,
    <<T("css"), T("text/css")>>,
    <<T("gif"), T("image/gif")>>,
    <<T("jpeg"), T("image/jpeg")>>,
    <<T("jpg"), T("image/jpeg")>>,
    <<T("js"), T("application/javascript")>>,
    <<T("atom"), T("application/atom+xml")>>,
    <<T("rss"), T("application/rss+xml")>>,
    <<T("mml"), T("text/mathml")>>,
    <<T("jad"), T("text/vnd.sun.j2me.app-descriptor")>>,
    <<T("wml"), T("text/vnd.wap.wml")>>,
    <<T("htc"), T("text/x-component")>>,
    <<T("png"), T("image/png")>>,
    <<T("tif"), T("image/tiff")>>,
    <<T("tiff"), T("image/tiff")>>,
    <<T("wbmp"), T("image/vnd.wap.wbmp")>>,
    <<T("ico"), T("image/x-icon")>>,
    <<T("jng"), T("image/x-jng")>>,
    <<T("bmp"), T("image/x-ms-bmp")>>,
    <<T("svg"), T("image/svg+xml")>>,
    <<T("svgz"), T("image/svg+xml")>>,
    <<T("webp"), T("image/webp")>>,
    <<T("woff"), T("application/font-woff")>>,
    <<T("jar"), T("application/java-archive")>>,
    <<T("war"), T("application/java-archive")>>,
    <<T("ear"), T("application/java-archive")>>,
    <<T("json"), T("application/json")>>,
    <<T("hqx"), T("application/mac-binhex40")>>,
    <<T("doc"), T("application/msword")>>,
    <<T("pdf"), T("application/pdf")>>,
    <<T("ps"), T("application/postscript")>>,
    <<T("eps"), T("application/postscript")>>,
    <<T("ai"), T("application/postscript")>>,
    <<T("rtf"), T("application/rtf")>>,
    <<T("m3u8"), T("application/vnd.apple.mpegurl")>>,
    <<T("xls"), T("application/vnd.ms-excel")>>,
    <<T("eot"), T("application/vnd.ms-fontobject")>>,
    <<T("ppt"), T("application/vnd.ms-powerpoint")>>,
    <<T("wmlc"), T("application/vnd.wap.wmlc")>>,
    <<T("kml"), T("application/vnd.google-earth.kml+xml")>>,
    <<T("kmz"), T("application/vnd.google-earth.kmz")>>,
    <<T("7z"), T("application/x-7z-compressed")>>,
    <<T("cco"), T("application/x-cocoa")>>,
    <<T("jardiff"), T("application/x-java-archive-diff")>>,
    <<T("jnlp"), T("application/x-java-jnlp-file")>>,
    <<T("run"), T("application/x-makeself")>>,
    <<T("pl"), T("application/x-perl")>>,
    <<T("pm"), T("application/x-perl")>>,
    <<T("prc"), T("application/x-pilot")>>,
    <<T("pdb"), T("application/x-pilot")>>,
    <<T("rar"), T("application/x-rar-compressed")>>,
    <<T("rpm"), T("application/x-redhat-package-manager")>>,
    <<T("sea"), T("application/x-sea")>>,
    <<T("swf"), T("application/x-shockwave-flash")>>,
    <<T("sit"), T("application/x-stuffit")>>,
    <<T("tcl"), T("application/x-tcl")>>,
    <<T("tk"), T("application/x-tcl")>>,
    <<T("der"), T("application/x-x509-ca-cert")>>,
    <<T("pem"), T("application/x-x509-ca-cert")>>,
    <<T("crt"), T("application/x-x509-ca-cert")>>,
    <<T("xpi"), T("application/x-xpinstall")>>,
    <<T("xspf"), T("application/xspf+xml")>>,
    <<T("zip"), T("application/zip")>>,
    <<T("bin"), T("application/octet-stream")>>,
    <<T("exe"), T("application/octet-stream")>>,
    <<T("dll"), T("application/octet-stream")>>,
    <<T("deb"), T("application/octet-stream")>>,
    <<T("dmg"), T("application/octet-stream")>>,
    <<T("iso"), T("application/octet-stream")>>,
    <<T("img"), T("application/octet-stream")>>,
    <<T("msi"), T("application/octet-stream")>>,
    <<T("msp"), T("application/octet-stream")>>,
    <<T("msm"), T("application/octet-stream")>>,
    <<T("docx"), T("application/vnd.openxmlformats-officedocument.wordprocessingml.document")>>,
    <<T("xlsx"), T("application/vnd.openxmlformats-officedocument.spreadsheetml.sheet")>>,
    <<T("pptx"), T("application/vnd.openxmlformats-officedocument.presentationml.presentation")>>,
    <<T("mid"), T("audio/midi")>>,
    <<T("midi"), T("audio/midi")>>,
    <<T("kar"), T("audio/midi")>>,
    <<T("mp3"), T("audio/mpeg")>>,
    <<T("ogg"), T("audio/ogg")>>,
    <<T("m4a"), T("audio/x-m4a")>>,
    <<T("ra"), T("audio/x-realaudio")>>,
    <<T("3gpp"), T("video/3gpp")>>,
    <<T("3gp"), T("video/3gpp")>>,
    <<T("ts"), T("video/mp2t")>>,
    <<T("mp4"), T("video/mp4")>>,
    <<T("mpeg"), T("video/mpeg")>>,
    <<T("mpg"), T("video/mpeg")>>,
    <<T("mov"), T("video/quicktime")>>,
    <<T("webm"), T("video/webm")>>,
    <<T("flv"), T("video/x-flv")>>,
    <<T("m4v"), T("video/x-m4v")>>,
    <<T("mng"), T("video/x-mng")>>,
    <<T("asx"), T("video/x-ms-asf")>>,
    <<T("asf"), T("video/x-ms-asf")>>,
    <<T("wmv"), T("video/x-ms-wmv")>>,
    <<T("avi"), T("video/x-msvideo")>>
>>
Indexes == <<T("html"), T("htm"), T("shtml"), T("xml"), T("txt"), T("xhtml")>>
Default == T("application/octet-stream")
TypeOf(name) ==
    LET dots == {i \in 1..Len(name) : name[i] = 46}
        i == CHOOSE i \in dots : \A j \in dots : j <= i
        ext == SubSeq(name, i + 1, Len(name))
    IN IF dots = {} THEN Default
       ELSE IF \E j \in (i + 1)..Len(name) : name[j] = 92 THEN Default
       ELSE IF \E j \in 1..Len(Types) : Types[j][1] = ext THEN Value(Types, ext)
       ELSE Default

(* ---- answers: status, type, location, body *)
Answer(s) == [status |-> s, type |-> <<>>, location |-> <<>>, body |-> <<>>, from |-> <<>>]
IndexOf(tree, dir) ==
    LET found(i) == Resolve(tree, Append(dir, T("index.") \o Indexes[i])).st = "ok"
    IN IF \E i \in 1..Len(Indexes) : found(i)
       THEN CHOOSE i \in 1..Len(Indexes) : found(i) /\ \A j \in 1..(i - 1) : ~found(j)
       ELSE 0
(* an address that starts with more than one slash would be another server's *)
OneSlash(a) ==
    LET n == SelectInSeq(a, LAMBDA c : c # Slash)
    IN IF n > 2 THEN SubSeq(a, n - 1, Len(a)) ELSE a

Contents(tree, at) ==
    LET x == Node(tree, at) IN
    IF x.k = "dir" \/ ~x.open THEN Answer(500)
    ELSE [Answer(200) EXCEPT !.type = TypeOf(Last(at)), !.body = x.d, !.from = at]

Get(tree, root, address) ==
    LET raw == SubSeq(address, 1, First(address, {63}) - 1)
        path == Decode(raw)
        r == Resolve(tree, root \o Split(path, Slash))
        rr == Resolve(tree, root)
    IN IF 0 \in Elems(path) THEN Answer(400)
       ELSE IF r.st = "missing" THEN Answer(404)
       ELSE IF r.st # "ok" \/ rr.st # "ok" THEN Answer(500)
       ELSE IF ~Inside(rr.at, r.at) THEN Answer(404)
       ELSE IF Node(tree, r.at).k # "dir" THEN Contents(tree, r.at)
       ELSE LET i == IndexOf(tree, r.at)
                x == Resolve(tree, Append(r.at, T("index.") \o Indexes[i]))
            IN IF i = 0 THEN Answer(403)
               ELSE IF ~Inside(rr.at, x.at) THEN Answer(404)
               ELSE IF path # <<>> /\ path[Len(path)] # Slash
                    THEN [Answer(302) EXCEPT !.location = OneSlash(raw) \o <<Slash>>]
               ELSE Contents(tree, x.at)

Respond(tree, root, request) ==
    LET p == Pieces(RequestLine(request)) IN
    IF p = <<>> THEN Answer(400)
    ELSE IF p[1] # T("GET") THEN Answer(405)
    ELSE IF p[2] = <<>> THEN Answer(400)
    ELSE Get(tree, root, p[2])
=============================================================================
