SPECIFICATION Spec
VIEW View
INVARIANTS EditorOk ScreenOk PromptOk
CHECK_DEADLOCK FALSE
