SPECIFICATION Spec
CONSTANT Base = 256
