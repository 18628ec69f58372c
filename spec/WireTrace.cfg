SPECIFICATION TraceSpec
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
VIEW View
CONSTANT TAGS <- TagsEnv
