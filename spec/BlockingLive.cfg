SPECIFICATION Fair
PROPERTIES AllEnd
