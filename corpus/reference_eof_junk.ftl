### NOTE: Disable final newline insertion when editing this file.

000