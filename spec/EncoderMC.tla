---- MODULE EncoderMC ----
(* How LZMA2_encode and its callers make one stream: blocks are cut into slices that encoders with separate models compress
   at the same time; each slice is a sequence of chunks, each compressed, or stored after compression was tried, or
   stored without trying; the slices are concatenated. The reader is the chunk grammar of Lzma2 with the decoder's model.
   A model (of probabilities) is the sequence of chunks it has seen since its reset, so that two models are equal only
   if encoder and decoder went through the same. All outcomes of all chunks, all parameters between blocks. *)
EXTENDS Lzma2, FiniteSets
CONSTANTS Blocks, Slices, ChunksMax, Bug
VARIABLES n,                     \* chunks written
          blk, sl, ch,           \* block, slice in it, chunk in it (0: slice not begun)
          reset,                 \* the block begins at a dictionary reset
          params,                \* lc/lp/pb of the block
          es, need, plain,       \* the encoder: model, properties not yet written in this slice, next chunk stored without trying
          g, ds, dp,             \* the reader: grammar, model, properties
          bad, done
vars == <<n, blk, sl, ch, reset, params, es, need, plain, g, ds, dp, bad, done>>
Init == /\ n = 0 /\ blk = 1 /\ sl = 1 /\ ch = 0 /\ reset = TRUE /\ params \in 1..2
        /\ es = <<>> /\ need = TRUE /\ plain = FALSE /\ g = G0 /\ ds = <<>> /\ dp = 0 /\ bad = "" /\ done = FALSE
AtStart == reset /\ sl = 1 /\ ch = 1           \* position 0 of the dictionary
BeginSlice == /\ ~done /\ ch = 0 /\ ch' = 1 /\ es' = <<>> /\ plain' = FALSE
              /\ need' = (CASE Bug = "props_once" -> n = 0 [] Bug = "props_block" -> sl = 1 [] OTHER -> TRUE)
              /\ UNCHANGED <<n, blk, sl, reset, params, g, ds, dp, bad, done>>
\* what the reader makes of a chunk with this control byte, whose symbols were encoded with model m
Read(c, m) ==
    LET st == IF c >= 128 /\ Mode(c) >= 1 THEN <<>> ELSE ds
        pr == IF c >= 128 /\ Mode(c) >= 2 THEN params ELSE dp IN
    /\ bad' = (IF bad # "" THEN bad ELSE IF ~GLegal(g, c) THEN "illegal chunk" ELSE IF c < 128 THEN ""
               ELSE IF st # m THEN "different models" ELSE IF pr # params THEN "different properties" ELSE "")
    /\ g' = GAfter(g, c) /\ dp' = pr
    /\ ds' = (IF c >= 128 THEN Append(st, n + 1) ELSE ds)
Store(tried) ==
    /\ Read(IF AtStart THEN 1 ELSE 2, <<>>)
    /\ es' = (IF tried /\ Bug = "no_restore" THEN Append(es, n + 1) ELSE es)
    /\ need' = (IF Bug = "props_stored" THEN FALSE ELSE need)
    /\ plain' \in BOOLEAN                      \* the next chunk is looked at: not worth trying
Compress ==
    /\ Read(IF AtStart /\ Bug # "no_dict_reset" THEN 224 ELSE IF need THEN (IF Bug = "props_only_state" THEN 160 ELSE 192) ELSE 128, es)
    /\ es' = Append(es, n + 1) /\ need' = FALSE
    /\ plain' \in BOOLEAN                      \* if it barely shrank
Chunk == /\ ~done /\ ch \in 1..ChunksMax /\ n' = n + 1 /\ ch' = ch + 1
         /\ IF plain THEN Store(FALSE) ELSE Store(TRUE) \/ Compress
         /\ UNCHANGED <<blk, sl, reset, params, done>>
EndSlice == /\ ~done /\ ch > 1 /\ ch' = 0 /\ UNCHANGED <<n, es, need, plain, g, ds, dp, bad>>
            /\ \/ sl < Slices /\ sl' = sl + 1 /\ UNCHANGED <<blk, reset, params, done>>
               \/ blk < Blocks /\ blk' = blk + 1 /\ sl' = 1 /\ reset' \in BOOLEAN /\ params' \in 1..2 /\ UNCHANGED done
               \/ done' = TRUE /\ UNCHANGED <<blk, sl, reset, params>>
Next == BeginSlice \/ Chunk \/ EndSlice
Spec == Init /\ [][Next]_vars
Readable == bad = ""
\* what follows a flush or a dictionary reset can be read on its own from there
Restart == (ch = 2 /\ sl = 1 /\ reset) => ~g.dict
====
