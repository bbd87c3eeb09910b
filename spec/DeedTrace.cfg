SPECIFICATION Spec
CONSTANTS NO = 6
          NH = 6
