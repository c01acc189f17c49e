------------------------------ MODULE ToolModel ------------------------------
(* Every run of the tool with few files.                                                        *)
EXTENDS Tool, FiniteSets

CONSTANT MaxFiles

Few == {{}, {"psnr"}, {"psnr", "ciede"}}
Runs == UNION {[usage : BOOLEAN, wanted : SUBSET Dests, broken : {{}, {"json"}, {"stdout"}, {"csv", "text"}},
                lost : {{}, {0}, {n}}, metric : {"all", "psnr"}, n : {n}, measurable : [1..n -> Few]] : n \in 1..MaxFiles}
MInit == Init /\ run \in Runs
MSpec == MInit /\ [][Next]_vars /\ WF_vars(Work)
=============================================================================
