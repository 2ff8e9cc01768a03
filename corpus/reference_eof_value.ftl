### NOTE: Disable final newline insertion when editing this file.

no-eol = No EOL