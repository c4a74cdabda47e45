SPECIFICATION Spec
ALIAS Report
