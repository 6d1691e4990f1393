SPECIFICATION Spec
INVARIANTS SizeAnswers OrderAnswers Inverse NextAnswers Extremes
CHECK_DEADLOCK FALSE
