SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY Frame ReadYourWrites CloneEqual
