"""Reviewed reference definitions of vectorbt.utils.requests_ (functions as name__ref, methods as name__of__Class)."""
from urllib.parse import urlencode
import requests
from requests.adapters import HTTPAdapter
from requests.packages.urllib3.util.retry import Retry
from vectorbt import _typing as tp
from vectorbt.utils.requests_ import requests_retry_session, text_to_giphy_url


def requests_retry_session__ref(retries=3, backoff_factor=0.3, status_forcelist=(500, 502, 504), session=None):
    session = session or requests.Session()
    retry = Retry(total=retries, read=retries, connect=retries, backoff_factor=backoff_factor, status_forcelist=status_forcelist)
    adapter = HTTPAdapter(max_retries=retry)
    session.mount('http://', adapter)
    session.mount('https://', adapter)
    return session


def text_to_giphy_url__ref(text, api_key=None, weirdness=None):
    from vectorbt._settings import settings
    giphy_cfg = settings['messaging']['giphy']
    if api_key is None:
        api_key = giphy_cfg['api_key']
    if weirdness is None:
        weirdness = giphy_cfg['weirdness']
    params = {'api_key': api_key, 's': text, 'weirdness': weirdness}
    url = 'http://api.giphy.com/v1/gifs/translate?' + urlencode(params)
    response = requests_retry_session().get(url)
    return response.json()['data']['images']['fixed_height']['url']
