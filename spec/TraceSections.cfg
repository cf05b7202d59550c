SPECIFICATION Spec
CONSTANTS MaxInst = 65535
          MaxSection = 16777215
