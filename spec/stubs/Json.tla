-------------------------------- MODULE Json --------------------------------
(* Stands for the community module when tlapm reads the specifications: no proof is about texts. *)
CONSTANT ToJson(_)
=============================================================================
