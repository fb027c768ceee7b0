SPECIFICATION Spec
CONSTANTS WORDS = {"--bin_dataset", "False", "1", "--normalize", "--targ", "--target=x", "--opt=no", "--dataset-size", "stray", "--conv"}
          MAXLEN = 2
          VALUE = "given"
INVARIANTS Untouched Mentioned Refusals
PROPERTIES Ends Last NoMeansNo
CHECK_DEADLOCK FALSE
