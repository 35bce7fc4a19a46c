SPECIFICATION Spec
VIEW Place
CHECK_DEADLOCK FALSE
