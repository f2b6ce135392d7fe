GENERAL = ("Every obligation generated from the current source of the functions under contract is discharged for all inputs. "
  "Assumed: the models of binutils/io/sort/errors calls listed in the evidence, 64-bit integers do not overflow, sequential execution; no termination proof.")
