------------------------------- MODULE FntTrace -------------------------------
(* Histories of one filename table.  st = the tree. Every event carries the    *)
(* tree as observed after it (e.tree).                                          *)
EXTENDS TraceBase, Fnt

Raised(e) == e.exc # ""
V_new(s, e) == IF Raised(e) THEN "construction raised" ELSE ""
V_idOf(s, e) == IF Raised(e) THEN "idOf raised" ELSE IF e.r # IdOf(s, e.path) THEN "idOf gives the wrong ID" ELSE ""
V_nameOf(s, e) == IF Raised(e) THEN "filenameOf raised" ELSE IF e.r # FilenameOf(s, e.id) THEN "filenameOf gives the wrong path" ELSE ""
V_sub(s, e) == IF Raised(e) THEN "subfolder raised" ELSE IF e.r # SubfolderOf(s, e.path) THEN "subfolder gives the wrong folder" ELSE ""
(* folder[key]: e.kind is "id" / "name" / "folder" / "" (KeyError) *)
V_getStr(s, e) ==
  LET i == IdOf(s, e.path) d == SubfolderOf(s, e.path) IN
  IF i # <<>> THEN (IF Raised(e) \/ e.kind # "id" THEN "folder[path] does not give the ID" ELSE IF e.r # i THEN "folder[path] gives the wrong ID" ELSE "")
  ELSE IF d # <<>> THEN (IF Raised(e) \/ e.kind # "folder" THEN "folder[path] does not give the folder" ELSE IF e.r # d THEN "folder[path] gives the wrong folder" ELSE "")
  ELSE IF ~Raised(e) THEN "folder[path] does not report absence" ELSE ""
V_getInt(s, e) ==
  LET n == FilenameOf(s, e.id) IN
  IF n = <<>> THEN (IF ~Raised(e) THEN "folder[id] does not report absence" ELSE "")
  ELSE IF Raised(e) \/ e.kind # "name" THEN "folder[id] does not give the path"
  ELSE IF e.r # n THEN "folder[id] gives the wrong path" ELSE ""
V_hasStr(s, e) == IF Raised(e) THEN "contains raised" ELSE
                  IF e.r # (IdOf(s, e.path) # <<>> \/ SubfolderOf(s, e.path) # <<>>) THEN "membership of path wrong" ELSE ""
V_hasInt(s, e) == IF Raised(e) THEN "contains raised" ELSE IF e.r # (FilenameOf(s, e.id) # <<>>) THEN "membership of ID wrong" ELSE ""
V_save(s, e) == IF Raised(e) THEN (IF FStorable(s) THEN "save raised" ELSE "")
                ELSE IF ~FStorable(s) THEN "unstorable tree saved"
                ELSE IF FntDecode(e.out) # s THEN "saved table does not denote the tree"
                ELSE IF e.out # FntEncode(s) THEN "saved table does not follow the layout" ELSE ""
V_load(s, e) == IF Raised(e) THEN "load raised" ELSE IF e.tree # FntDecode(e.data) THEN "loaded tree differs from the table" ELSE ""
V_add(s, e) == IF Raised(e) THEN "editing raised" ELSE ""
AddTo(s, e) == AddAt(s, Parts(e.path), <<e.name>>, <<>>)

Post(s, e) == CASE e.op = "new" -> e.want
                [] e.op = "load" -> FntDecode(e.data)
                [] e.op = "add" -> AddTo(s, e)
                [] OTHER -> s
FVerdict(s, e) ==
  LET v == CASE e.op = "new" -> V_new(s, e) [] e.op = "idOf" -> V_idOf(s, e) [] e.op = "filenameOf" -> V_nameOf(s, e)
             [] e.op = "subfolder" -> V_sub(s, e) [] e.op = "getStr" -> V_getStr(s, e) [] e.op = "getInt" -> V_getInt(s, e)
             [] e.op = "hasStr" -> V_hasStr(s, e) [] e.op = "hasInt" -> V_hasInt(s, e)
             [] e.op = "save" -> V_save(s, e) [] e.op = "load" -> V_load(s, e) [] e.op = "add" -> V_add(s, e)
  IN IF v # "" THEN v ELSE IF e.tree # Post(s, e) THEN "tree is not the expected one afterwards" ELSE ""
TInit == TraceInit(LAMBDA t : EmptyFolder)
TNext == TraceNext(FVerdict, Post)
=============================================================================
