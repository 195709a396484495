NA = {}
B = "Every recorded result of the sampled scenarios is decided by TLC against the executable TLA+ semantics; not exhaustive over inputs."
c("C01", TV + "; split results against slice-by-slice results", B)
c("C02", TV + " (module Leaf)", B)
c("C03", TV + " (filters as row removal at every level)", B)
c("C04", TV + " (Comp, List, members)", B)
c("C05", TV + " (Shares, Cumulate)", B)
c("C06", TV + " (Compare)", B)
c("C07", TV + " (MHone)", B)
c("C08", TV + " (exact least squares in TLA+)", B)
c("C09", TV + " (Diversity)", B)
c("C10", TV + " (Jackknife: leave one unit out)", B)
c("C11", TV + " (Resample: draws decoded from indicator sums, replicates recomputed, five-sigma moments)", B)
c("C12", TV + " (Resample: weights decoded from indicator sums, replicates recomputed, five-sigma moments)", B)
c("C13", TV + " (Reported; Student quantile inverted independently)", B)
c("C17", TV + " (LongOf: wide form to long form; conversions)", B)
c("C23", TV + " (equality of recorded results under row and column transformations)", B)
c("C18", TV + " (QueryDiff; queries run on SQLite through a translation of the BigQuery dialect; draws of resampling queries decoded as in memory)", B)
c("C19", TV + " (leaves asked of SQLite, the rest in memory; replicates of batches decoded and recomputed)", B)
S = TV + "; histories enumerated by TLC from Session.tla (mechanism of the cache, transparency as invariant, seven faulty mechanisms refuted) replayed on the library"
c("C16", TV + " (EqualDiff: what compares equal, or has equal fingerprints, has equal numbers; recorded and evaluated)", B)
c("C14", S, B)
c("C15", S + "; inputs, definitions and caller's objects compared before and after", B)
c("C20", "TLC enumerates the histories of two specifications (Titles: how columns get titles; Subqueries: how WITH clauses are put together), their invariants are checked and flawed variants refuted; every history is replayed on the library, and what results, as well as generated programs, is judged by TLC against the specification (module Query)", B)
c("C21", TV + " (module Fit: least squares, ridge, lasso and elastic net solved exactly by their optimality conditions, logistic regression by its gradient)", B)
c("C22", TV + " (module Display: rows, cells, colours, units, order and columns of the table of intervals)", B)
