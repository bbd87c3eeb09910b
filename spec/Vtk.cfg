SPECIFICATION VtkSpec
