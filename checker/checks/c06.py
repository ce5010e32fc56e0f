"""C06: on the command line, the backup precedes the change, and commands that only report stay read-only."""
from ..cli import CliCheck


class C06(CliCheck):
    id = 'C06'
    technique = 'inter-procedural typestate analysis of the commands, with operations classified by whether they reach a changing statement'
    level_note = ('All paths of every command, with and without backup and with and without piped input; making a backup may fail. An operation '
                  'changes its file if some path of it executes a changing statement on the space. That the backup is complete is C03.')
    explanation = ('A file is changed (by an operation, a statement of the command or a file function) only after a backup of it was saved under another '
                   'name, if one is wanted; commands without the backup option, and those that write to standard output, open their files read-only and change nothing.')
    rules = ('changed-without-backup', 'upgrade-before-backup', 'report-changes', 'not-read-only', 'option')
    floors = {'entry_points': 20, 'changes': 20, 'backups': 10, 'files_opened': 20}

    def finish(self, results):
        reports, cov = super().finish(results)
        for kind, line, msg in self.problems:
            if kind in self.rules:
                reports.append({'rule': kind, 'where': f'src/toron/cli/main.py:{line}', 'function': 'toron.cli.main.get_parser', 'path': [],
                                'entry': '', 'message': msg})
        cov['commands'] = len(self.commands)
        cov['changing_operations'] = sorted(k for k, v in self.changing.items() if v)
        cov['reading_operations'] = sorted(k for k, v in self.changing.items() if not v)
        return reports, cov


check = C06
