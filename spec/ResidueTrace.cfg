SPECIFICATION Spec
VIEW View
ALIAS Report
