"""Django bootstrap for the run-time side: SQLite in memory, or a throw-away PostgreSQL (unix socket only)."""
import atexit, os, shutil, subprocess, sys, tempfile, time

sys.dont_write_bytecode = True
PGBIN = "/usr/lib/postgresql/16/bin"
REPO = os.environ.get("TB_REPO", "/repo")


class Postgres:
    """scratch cluster below a fresh temporary directory, owned by the unprivileged user 'postgres'"""
    def __init__(self):
        self.work = tempfile.mkdtemp(prefix="tbrt.")
        os.chmod(self.work, 0o755)
        self.pg = os.path.join(self.work, "pg")
        subprocess.run(["install", "-d", "-o", "postgres", "-g", "postgres", "-m", "700", self.pg], check=True)
        atexit.register(self.stop)
        self._as("initdb", "-D", self.pg + "/data", "-U", "treebeard", "--auth=trust", "-E", "UTF8", "--locale=C.UTF-8", "--no-sync")
        self._as("pg_ctl", "-w", "-t", "120", "-D", self.pg + "/data", "-l", self.pg + "/log", "-o",
                 f"-k {self.pg} -c listen_addresses='' -c fsync=off -c full_page_writes=off -c synchronous_commit=off "
                 "-c max_connections=60 -c shared_buffers=16MB", "start")
    def _as(self, prog, *args):
        r = subprocess.run(["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", "env", "HOME=" + self.pg,
                            PGBIN + "/" + prog, *args], cwd=self.pg, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE if prog == "initdb" else subprocess.DEVNULL)
        if r.returncode:
            raise RuntimeError(f"{prog} failed: {(r.stderr or b'').decode()[-400:]}")
    def createdb(self, name):
        self._as("createdb", "-h", self.pg, "-U", "treebeard", name)
    def stop(self):
        if self.work and os.path.isdir(self.work):
            try:
                self._as("pg_ctl", "-w", "-m", "immediate", "-D", self.pg + "/data", "stop")
            except Exception:
                pass
            shutil.rmtree(self.work, ignore_errors=True)
        self.work = None


def setup(engine="sqlite", host=None, dbname="tb"):
    os.environ["RT_ENGINE"] = engine
    here = os.path.dirname(os.path.abspath(__file__))
    for p in (here, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import django
    from django.conf import settings
    db = {"ENGINE": "django.db.backends.sqlite3", "NAME": ":memory:"} if engine == "sqlite" else \
         {"ENGINE": "django.db.backends.postgresql", "NAME": dbname, "USER": "treebeard", "HOST": host, "PORT": ""}
    if not settings.configured:
        settings.configure(
            DATABASES={"default": db}, SECRET_KEY="x", USE_TZ=True, ROOT_URLCONF="tb.urls",
            DEFAULT_AUTO_FIELD="django.db.models.BigAutoField",
            INSTALLED_APPS=["django.contrib.auth", "django.contrib.contenttypes", "django.contrib.sessions",
                            "django.contrib.admin", "django.contrib.messages", "treebeard", "tb"],
            MIDDLEWARE=["django.contrib.sessions.middleware.SessionMiddleware",
                        "django.contrib.auth.middleware.AuthenticationMiddleware",
                        "django.contrib.messages.middleware.MessageMiddleware"],
            TEMPLATES=[{"BACKEND": "django.template.backends.django.DjangoTemplates", "APP_DIRS": True,
                        "OPTIONS": {"context_processors": ["django.contrib.auth.context_processors.auth",
                                                           "django.template.context_processors.request",
                                                           "django.contrib.messages.context_processors.messages"]}}])
    django.setup()
    import treebeard
    assert os.path.realpath(treebeard.__file__).startswith(os.path.realpath(REPO) + "/"), treebeard.__file__
    from django.apps import apps
    from django.db import connection
    if engine == "psql":
        with connection.cursor() as c:
            c.execute("CREATE EXTENSION IF NOT EXISTS ltree")
    with connection.schema_editor() as se:
        for app in ("contenttypes", "auth", "tb"):
            for m in apps.get_app_config(app).get_models():
                if not m._meta.proxy:
                    se.create_model(m)
    if engine == "psql":
        with connection.cursor() as c:
            c.execute("SELECT sequencename FROM pg_sequences WHERE sequencename LIKE 'tb_%%'")
            for (n,) in c.fetchall():
                c.execute(f'ALTER SEQUENCE "{n}" RESTART WITH 100000')
