SPECIFICATION Spec
CONSTANT Types <- MCTypes
INVARIANTS SharedView ImageUnique DownloadSeesMembers
PROPERTIES UploadClean
CHECK_DEADLOCK FALSE
