SPECIFICATION Spec
INVARIANTS
  OneClass RightVariant RefusedRunsNothing AllowIsExact MergeIsExact
  CallsThenPasses BodyReadOnce BodyUntouched GuardsBeforeValue WholeBody
PROPERTIES NoLateFallback NoReturn ReadByDecoder
